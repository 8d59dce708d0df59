// Package hx holds what all conformance drivers share: reading scenarios
// (operation sequences generated from the TLA+ specifications), recording
// traces of what the real code did, calling into the code under test without
// ever wedging the driver, and turning raw bytes into strings TLC can handle.
package hx

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

type Op map[string]interface{}

func (o Op) S(k string) string {
	s, _ := o[k].(string)
	return s
}
func (o Op) I(k string) int {
	f, _ := o[k].(float64)
	return int(f)
}
func (o Op) B(k string) bool {
	b, _ := o[k].(bool)
	return b
}

// Scenario is one operation sequence plus its configuration.
type Scenario struct {
	ID   string `json:"id"`
	Seed int64  `json:"seed"`
	Kind string `json:"kind"`
	Cfg  Op     `json:"cfg"`
	Ops  []Op   `json:"ops"`
}

// Ev is one recorded trace event.
type Ev map[string]interface{}

// Rec records the trace of one scenario. Every event is appended to the
// output file at once, so that a crash of the code under test keeps the prefix.
type Rec struct {
	mu   sync.Mutex
	f    *os.File
	ID   string
	Cfg  Ev
	n    int
	done bool
}

func (r *Rec) line(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(fmt.Sprintf("harness: cannot marshal event: %v", err))
	}
	b = append(asciiJSON(b), '\n')
	if _, err := r.f.Write(b); err != nil {
		panic(err)
	}
}

// asciiJSON rewrites non-ASCII characters as \u escapes.
func asciiJSON(b []byte) []byte {
	ascii := true
	for _, c := range b {
		if c >= 0x80 {
			ascii = false
			break
		}
	}
	if ascii {
		return b
	}
	out := make([]byte, 0, len(b)+16)
	for _, r := range string(b) {
		if r < 0x80 {
			out = append(out, byte(r))
		} else if r < 0x10000 {
			out = append(out, []byte(fmt.Sprintf("\\u%04x", r))...)
		} else {
			r -= 0x10000
			out = append(out, []byte(fmt.Sprintf("\\u%04x\\u%04x", 0xd800+(r>>10), 0xdc00+(r&0x3ff)))...)
		}
	}
	return out
}

func (r *Rec) SetCfg(c Ev) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.line(Ev{"t": "cfg", "id": r.ID, "cfg": c})
}

func (r *Rec) Log(e Ev) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n++
	r.line(Ev{"t": "ev", "e": e})
}

// Locked runs f (which must return the event) with the recorder locked.
func (r *Rec) Locked(f func() Ev) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n++
	r.line(Ev{"t": "ev", "e": f()})
}

// Lat maps every byte to the character with that code, so that strings of
// arbitrary bytes survive JSON and TLC.
func Lat(s string) string {
	rs := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		rs[i] = rune(s[i])
	}
	return string(rs)
}

// Long is the virtual time after which a call that has not returned is
// considered to hang.
const Long = time.Hour

// Call runs f in its own goroutine and reports whether it returned. It is for
// calls into the code under test made from inside a synctest bubble: virtual
// time makes waiting free.
func Call(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	// fast path: let everything settle without advancing time
	synctest.Wait()
	select {
	case <-done:
		return true
	default:
	}
	t := time.NewTimer(Long)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// Driver executes one scenario.
type Driver func(sc *Scenario, rng *rand.Rand, r *Rec)

// Main is the body of every driver binary: it reads DRV_SCN, executes the
// scenarios from index DRV_START on with the driver named by DRV_NAME and
// appends trace lines to DRV_OUT.
func Main(t *testing.T, drivers map[string]Driver) {
	name := os.Getenv("DRV_NAME")
	d, ok := drivers[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "harness: no driver", name)
		os.Exit(3)
	}
	scs := readScenarios(os.Getenv("DRV_SCN"))
	start, _ := strconv.Atoi(os.Getenv("DRV_START"))
	out, err := os.OpenFile(os.Getenv("DRV_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	run := func() {
		for i := start; i < len(scs); i++ {
			sc := scs[i]
			r := &Rec{f: out, ID: sc.ID}
			r.line(Ev{"t": "begin", "id": sc.ID, "i": i})
			d(sc, rand.New(rand.NewSource(sc.Seed)), r)
			r.mu.Lock()
			r.line(Ev{"t": "end", "id": sc.ID})
			r.mu.Unlock()
		}
		out.Close()
		os.Exit(0)
	}
	if os.Getenv("DRV_REAL") == "1" {
		run()
	}
	synctest.Test(t, func(t *testing.T) { run() })
}

func readScenarios(path string) []*Scenario {
	f, err := os.Open(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	defer f.Close()
	var out []*Scenario
	rd := bufio.NewReaderSize(f, 1<<20)
	dec := json.NewDecoder(rd)
	for dec.More() {
		var s Scenario
		if err := dec.Decode(&s); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(3)
		}
		out = append(out, &s)
	}
	return out
}

// KvList turns a map into a list of [key, value] pairs sorted by key.
func KvList(m map[string]string) [][]string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := make([][]string, 0, len(m))
	for _, k := range keys {
		out = append(out, []string{Lat(k), Lat(m[k])})
	}
	return out
}

// LatMap maps keys and values bytewise.
func LatMap(m map[string]string) map[string]string {
	out := make(map[string]string, len(m))
	for k, v := range m {
		out[Lat(k)] = Lat(v)
	}
	return out
}

// Pick returns a random element.
func Pick(rng *rand.Rand, xs []string) string { return xs[rng.Intn(len(xs))] }

// Distinct picks n distinct strings out of the pool.
func Distinct(rng *rand.Rand, pool []string, n int) []string {
	idx := rng.Perm(len(pool))
	out := make([]string, 0, n)
	for _, i := range idx {
		if len(out) == n {
			break
		}
		out = append(out, pool[i])
	}
	for i := 0; len(out) < n; i++ {
		out = append(out, fmt.Sprintf("filler%d", i))
	}
	return out
}
