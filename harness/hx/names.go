package hx

import (
	"math/rand"
	"strings"
	"sync"
	"unicode/utf8"
)

// UTF8Names are names that are valid UTF-8 but awkward.
var UTF8Names = []string{
	"", "a", "b", "foo", "bar", "general", "A.b.C", "foo.bar", "foo bar", " ", "%", "100%", "%d%s%n", "%!v(MISSING)", "%%",
	"\"quoted\"", "it's", "back\\slash", "new\nline", "tab\there", "\r\n", "\x00", "\x01\x1f\x7f", "é", "日本語",
	"😀 smile", "\u2028\u2029", "<b>&amp;</b>", "{\"json\":1}", "[1,2]", ":", "|", "a:1|c", "key=value", "/api/v1/users/:id",
	"success", "panic", "error", "validation_error", "junk", "none", "events", "jobs", "count", "nanos_sum", "e1", "j1",
	"stack", "request", "formdata", "null", "true", "0", "-1", "UPPER", "upper", "a_b-c", "\ufffd", "..", ".", "a.", ".a",
	"averyveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryverylongname",
}

// ByteNames additionally holds strings that are not valid UTF-8.
var ByteNames = append(append([]string{}, UTF8Names...), "\xff", "a\xfe\xc0b", "\x80\x81", "caf\xe9", "\xed\xa0\x80")

// NameSet concretises abstract ids to distinct names.
type NameSet struct {
	rng  *rand.Rand
	pool []string
	m    map[string]string
	used map[string]bool

	general bool
	long    bool
}

func NewNames(rng *rand.Rand, pool []string) *NameSet {
	return &NameSet{rng: rng, pool: pool, m: map[string]string{}, used: map[string]bool{}}
}

// NewJobs is NewNames for job names: one of them is often "general", the job of
// recordings made directly on a stream.
func NewJobs(rng *rand.Rand, pool []string) *NameSet {
	n := NewNames(rng, pool)
	n.general = rng.Intn(3) == 0
	return n
}

// names handed out so far in this scenario by sets of the same pool: related
// names (one a part of, or easily confused with, another) are wanted too.
var history struct {
	rng *rand.Rand
	by  map[*string][]string
	mu  sync.Mutex
}

var words = []string{"error", "success", "panic", ".", "count", "timing", "gauge", "_", " ", "$", "a", ".error", "stack", "x"}

func (n *NameSet) related(h []string) string {
	s := h[n.rng.Intn(len(h))]
	w := words[n.rng.Intn(len(words))]
	switch n.rng.Intn(8) {
	case 0, 1, 2:
		return s + w
	case 3:
		return w + s
	case 4:
		return s + h[n.rng.Intn(len(h))]
	case 5:
		return strings.ToUpper(s)
	case 6:
		return strings.ReplaceAll(s, ".", "_")
	}
	k := n.rng.Intn(len(s) + 1)
	for k < len(s) && !utf8.RuneStart(s[k]) {
		k++
	}
	return s[:k]
}

// Long has the set hold long names, too.
func (n *NameSet) Long() { n.long = true }

// Set fixes the name of id, which must not have been asked for yet.
func (n *NameSet) Set(id, name string) {
	n.m[id], n.used[name] = name, true
}

func (n *NameSet) Get(id string) string {
	history.mu.Lock()
	defer history.mu.Unlock()
	if s, ok := n.m[id]; ok {
		return s
	}
	if n.general {
		n.general = false
		n.used["general"], n.m[id] = true, "general"
		return "general"
	}
	if history.rng != n.rng {
		history.rng, history.by = n.rng, map[*string][]string{}
	}
	h := history.by[&n.pool[0]]
	for {
		var s string
		switch k := n.rng.Intn(6); {
		case k < 2 && len(h) > 0:
			s = n.related(h)
		case k == 5:
			s = n.pool[n.rng.Intn(len(n.pool))] + n.pool[n.rng.Intn(len(n.pool))]
		default:
			s = n.pool[n.rng.Intn(len(n.pool))]
		}
		if n.long && n.rng.Intn(2) == 0 {
			s = strings.Repeat(s+"x", 1+n.rng.Intn(8000)/(len(s)+1))
			if !n.used[s] {
				n.used[s], n.m[id] = true, s
				return s
			}
			continue
		}
		if !n.used[s] && len(s) < 300 {
			n.used[s] = true
			n.m[id] = s
			history.by[&n.pool[0]] = append(h, s)
			return s
		}
	}
}
