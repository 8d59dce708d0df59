// Drives healthtop: its real main() runs against a scripted healthd, and what
// it draws on the (stand-in) terminal is recorded. Compiled into
// /repo/cmd/healthtop through an overlay.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/buger/goterm"
	"verif/hx"
)

func TestDrive(t *testing.T) {
	hx.Main(t, map[string]hx.Driver{"healthtop": driveTop})
}

type topRun struct {
	rng    *rand.Rand
	r      *hx.Rec
	mu     sync.Mutex
	t0     time.Time
	view   string
	rows   int
	kind   string        // how healthd answers
	delay  time.Duration // after how long
	n      int           // requests so far
	screen string
	stop   bool
	quit   chan struct{}
	pool   []string
	height int
	tok    string // what the latest failure said
	due    map[int64]bool
}

func (x *topRun) ms() int64 { return int64(time.Since(x.t0) / time.Millisecond) }

func codes(s string) []int {
	out := make([]int, len(s))
	for i := range out {
		out[i] = int(s[i])
	}
	return out
}

var nanoPool = []int64{0, 1, 2, 999, 1000, 1001, 1999, 2000, 2001, 54321, 999999, 1000000, 1000001, 1999999, 2000000, 2000001, 2000999, 2001000, 2999999, 3000000,
	123456789, 999999999, 1000000000, 61000000000, 3600000000000, 90000000000000}

func split(n int64) hx.Ev { return hx.Ev{"hi": n / 1000000, "lo": n % 1000000} }

// table is one answer of healthd: what it says and how the model sees it.
func (x *topRun) table() (interface{}, []hx.Ev) {
	nano := func() int64 {
		if x.rng.Intn(3) == 0 {
			return x.rng.Int63n(5000000)
		}
		return nanoPool[x.rng.Intn(len(nanoPool))]
	}
	rows := []hx.Ev{}
	if x.view == "hosts" {
		hosts := []interface{}{}
		for i, n := 0, x.rng.Intn(5); i < n; i++ {
			hp := []string{"web1:5020", ":5030", "10.1.2.3:80", "[::1]:9", "a.example.com:65535"}[i]
			err := []string{"", "", "", "bad_status", "dial tcp: connection refused", "x", "100% \"full\"", "Success"}[x.rng.Intn(8)]
			code := []int{0, 200, 200, 200, 200, 201, 204, 404, 500}[x.rng.Intn(9)]
			chk := time.Time{}
			at := int64(-1)
			if x.rng.Intn(4) != 0 {
				at = x.rng.Int63n(100000)
				chk = x.t0.Truncate(time.Second).Add(time.Duration(at) * time.Second)
			}
			ns := nano()
			hosts = append(hosts, map[string]interface{}{"host_port": hp, "last_check_time": chk.UTC(), "last_instance_id": "i", "last_interval_duration": 60000000000, "last_err": err,
				"last_nanos": ns, "last_code": code, "first_successful_response": x.t0.UTC(), "last_successful_response": x.t0.UTC()})
			rows = append(rows, hx.Ev{"hp": hp, "code": code, "err": err, "at": at, "ns": split(ns)})
		}
		return map[string]interface{}{"instance_id": "x.1", "interval_duration": 60000000000, "hosts": hosts}, rows
	}
	jobs := []interface{}{}
	used := map[string]bool{}
	for i, n := 0, x.rng.Intn(7); i < n; i++ {
		name := x.pool[x.rng.Intn(len(x.pool))]
		if x.rng.Intn(3) == 0 {
			name += x.pool[x.rng.Intn(len(x.pool))]
		}
		if used[name] {
			continue
		}
		used[name] = true
		var c [6]int64 // total, success, validation error, panic, error, junk
		for k := 1; k < 6; k++ {
			if k == 1 || x.rng.Intn(3) == 0 {
				c[k] = []int64{0, 1, 2, 10, 12345, 200000000}[x.rng.Intn(6)]
			}
			c[0] += c[k]
		}
		var ts [5]int64 // avg, stddev, min, max, total
		for k := range ts {
			ts[k] = nano()
		}
		frac := []float64{0, 0.25, 0.5, 0.75}[x.rng.Intn(4)]
		jobs = append(jobs, map[string]interface{}{"name": name, "count": c[0], "count_success": c[1], "count_validation_error": c[2], "count_panic": c[3], "count_error": c[4], "count_junk": c[5],
			"nanos_avg": float64(ts[0]) + frac, "nanos_std_dev": float64(ts[1]) + frac, "nanos_min": ts[2], "nanos_max": ts[3], "nanos_sum": ts[4], "nanos_sum_squares": 1.5})
		rows = append(rows, hx.Ev{"name": codes(name), "c": c, "ts": []hx.Ev{split(ts[0]), split(ts[1]), split(ts[2]), split(ts[3]), split(ts[4])}})
	}
	return map[string]interface{}{"instance_id": "x.1", "interval_duration": 60000000000, "jobs": jobs}, rows
}

func (x *topRun) serve(req *http.Request, _ []byte) (*http.Response, error) {
	x.mu.Lock()
	if x.stop {
		x.mu.Unlock()
		runtime.Goexit()
	}
	x.n++
	n, kind, delay := x.n, x.kind, x.delay
	q := req.URL.Query()
	one := func(k string) string {
		v := q[k]
		delete(q, k)
		if len(v) == 0 {
			return "-"
		}
		return strings.Join(v, ",")
	}
	limit := one("limit")
	lim := int64(-1)
	if limit != "-" {
		l, err := strconv.ParseInt(limit, 10, 32)
		if err != nil {
			l = hx.Bad
		}
		lim = l
	}
	x.r.Log(hx.Ev{"op": "req", "n": n, "t": x.ms(), "method": req.Method, "host": req.URL.Scheme + "://" + req.URL.Host, "path": req.URL.Path, "sort": hx.Lat(one("sort")), "limit": lim, "more": len(q), "h": x.height})
	if delay > 0 { // never two answers at the same instant
		for x.due[x.ms()+int64(delay/time.Millisecond)] {
			delay += time.Millisecond
		}
		x.due[x.ms()+int64(delay/time.Millisecond)] = true
	}
	x.mu.Unlock()
	if delay > 0 {
		select {
		case <-time.After(delay):
		case <-x.quit:
			runtime.Goexit()
		}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.stop {
		runtime.Goexit()
	}
	data, rows := x.table()
	b, _ := json.Marshal(data)
	ok, tok := false, ""
	var resp *http.Response
	var err error
	switch kind {
	case "ok":
		ok = true
		resp = hx.Response(200, hx.NewBody(string(b), -1))
	case "refused":
		tok = fmt.Sprintf("refused-%d", n)
		err = errors.New(tok)
	case "readerr":
		resp = hx.Response(200, hx.NewBody(string(b), len(b)/2))
		tok = "connection reset"
	case "garbage":
		resp = hx.Response(200, hx.NewBody([]string{"", "<html>", "{\"jobs\": 3, \"hosts\": 3}", "[]", string(b[:len(b)-1]), string(b) + "x", string(b) + "{}"}[x.rng.Intn(7)], -1))
	case "code":
		resp = hx.Response([]int{404, 500, 502}[x.rng.Intn(3)], hx.NewBody("{\"error\": \"not_found\"}", -1))
	case "codedata":
		resp = hx.Response([]int{404, 500, 503, 201, 203, 206, 202, 422}[x.rng.Intn(8)], hx.NewBody(string(b), -1))
	}
	if !ok {
		x.tok = tok
	}
	x.r.Log(hx.Ev{"op": "ans", "n": n, "t": x.ms(), "ok": ok, "tok": tok, "rows": rows})
	return resp, err
}

var (
	ansi   = regexp.MustCompile("\033\\[([0-9;]*)m")
	header = regexp.MustCompile(`^Current Time: (.*?)\s+Status: (.*)$`)
	failed = regexp.MustCompile(`(?s)^\[error: '(.*)'\s+LastErrorAt: (.*)\]$`)
	dur    = regexp.MustCompile(`^(\d+) (ms|μs|ns)$`)
)

func plain(s string) string { return ansi.ReplaceAllString(s, "") }

func colour(s string) string {
	c := "black"
	for _, m := range ansi.FindAllStringSubmatch(s, -1) {
		switch m[1] {
		case "31":
			c = "red"
		case "32":
			c = "green"
		}
	}
	return c
}

func (x *topRun) sec(s string) int64 {
	t, err := time.Parse(time.RFC1123, s)
	if err != nil {
		return hx.Bad
	}
	if t.IsZero() {
		return -1
	}
	return int64(t.Sub(x.t0.Truncate(time.Second)) / time.Second)
}

func nanosCell(s string) hx.Ev {
	m := dur.FindStringSubmatch(s)
	if m == nil {
		return hx.Ev{"v": hx.Bad, "u": "?"}
	}
	v, err := strconv.ParseInt(m[1], 10, 32)
	if err != nil {
		v = hx.Bad
	}
	return hx.Ev{"v": v, "u": map[string]string{"ms": "ms", "μs": "us", "ns": "ns"}[m[2]]}
}

func intCell(s string) int64 {
	v, err := strconv.ParseInt(s, 10, 32)
	if err != nil {
		return hx.Bad
	}
	return v
}

// look turns what is on the screen into an event.
func (x *topRun) look() hx.Ev {
	e := hx.Ev{"op": "screen", "t": x.ms(), "clock": hx.Bad, "st": "?", "msg": "", "tokin": false, "errat": hx.Bad, "data": false, "good": false, "blank": x.screen == "", "rows": []hx.Ev{}}
	lines := strings.SplitN(x.screen, "\n", 2)
	if len(lines) < 2 {
		return e
	}
	m := header.FindStringSubmatch(plain(lines[0]))
	if m == nil {
		return e
	}
	e["clock"] = x.sec(m[1])
	switch {
	case m[2] == "[starting...]":
		e["st"] = "starting"
	case m[2] == "[success]":
		e["st"] = "success"
	default:
		if f := failed.FindStringSubmatch(m[2]); f != nil {
			e["st"], e["msg"], e["errat"] = "error", f[1], x.sec(f[2])
			e["tokin"] = strings.Contains(f[1], x.tok)
		}
	}
	body := strings.Split(strings.TrimRight(lines[1], "\n"), "\n")
	if len(body) == 1 && strings.TrimSpace(plain(body[0])) == "no data yet" {
		e["good"] = true
		return e
	}
	e["data"] = true
	heads := strings.Split(plain(body[0]), "\t")
	want := []string{"Job", "Total Count", "Success", "ValidationError", "Panic", "Error", "Junk", "Avg Response Time", "Stddev", "Min", "Max", "Total"}
	if x.view == "hosts" {
		want = []string{"Host:Port", "Status", "Last Checked", "Last Response Time"}
	}
	e["good"] = strings.Join(heads, "|") == strings.Join(want, "|")
	rows := []hx.Ev{}
	for _, l := range body[1:] {
		cells := strings.Split(strings.TrimSuffix(l, "\t"), "\t")
		if len(cells) != len(want) {
			e["good"] = false
			return e
		}
		if x.view == "hosts" {
			rows = append(rows, hx.Ev{"hp": plain(cells[0]), "st": plain(cells[1]), "col": colour(cells[1]), "at": x.sec(plain(cells[2])), "ns": nanosCell(plain(cells[3]))})
			continue
		}
		var c [6]int64
		var col [6]string
		for k := range c {
			c[k], col[k] = intCell(plain(cells[1+k])), colour(cells[1+k])
		}
		ts := []hx.Ev{}
		for _, s := range cells[7:] {
			ts = append(ts, nanosCell(plain(s)))
		}
		rows = append(rows, hx.Ev{"name": codes(plain(cells[0])), "c": c, "col": col, "ts": ts})
	}
	e["rows"] = rows
	return e
}

func driveTop(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	// odd starting instants: the clock shows whole seconds
	time.Sleep(time.Duration(rng.Intn(4)) * 250 * time.Millisecond)
	x := &topRun{rng: rng, r: r, t0: time.Now(), view: "jobs", kind: "ok", quit: make(chan struct{}), height: 24, due: map[int64]bool{}}
	if rng.Intn(3) == 0 {
		x.view = "hosts"
	}
	for _, s := range hx.UTF8Names {
		if !strings.ContainsAny(s, "\t\n\r\x1b") {
			x.pool = append(x.pool, s)
		}
	}
	source, sort, name := "localhost:5032", "name", ""
	args := []string{"healthtop"}
	opt := func(k, v string) {
		if rng.Intn(2) == 0 {
			args = append(args, "--"+k+"="+v)
		} else {
			args = append(args, "--"+k, v)
		}
	}
	if rng.Intn(2) == 0 {
		source = hx.Pick(rng, []string{"10.28.3.132:5032", "localhost:5031", "h:1", "[::1]:8000"})
	}
	before := rng.Intn(2) == 0
	if before && source != "localhost:5032" {
		opt("source", source)
	}
	args = append(args, x.view)
	if !before && source != "localhost:5032" {
		opt("source", source)
	}
	if x.view == "jobs" {
		if rng.Intn(2) == 0 {
			sort = hx.Pick(rng, []string{"count", "count_error", "avg", "max", "stddev", "total_time", "odd &=%?#", ""})
			opt("sort", sort)
		}
		if rng.Intn(2) == 0 {
			name = hx.Pick(rng, []string{"a", "foo", "e", "o", "api", " ", "%", "é", "\x00", "A", "zzz", ".", "*", "[1"})
			opt("name", name)
		}
	}
	cs := sort
	if sort == "" {
		cs = "-"
	}
	r.SetCfg(hx.Ev{"view": x.view, "source": "http://" + source, "sort": hx.Lat(cs), "name": codes(name), "frac": int64(x.t0.Sub(x.t0.Truncate(time.Second)) / time.Millisecond)})
	hx.InstallTransport().Set(x.serve)
	goterm.OnFlush = func(s string) {
		x.mu.Lock()
		stop := x.stop
		if !stop {
			x.screen = s
		}
		x.mu.Unlock()
		if stop {
			runtime.Goexit()
		}
	}
	goterm.SetSize(x.height, 200)
	setup := func(o hx.Op) {
		x.mu.Lock()
		defer x.mu.Unlock()
		switch o.S("op") {
		case "mode":
			x.kind = o.S("m")
		case "delay":
			x.delay = time.Duration(o.I("d")) * 10 * time.Millisecond
			if x.delay > 0 { // never on the second
				x.delay += time.Duration(1+rng.Intn(9)) * time.Millisecond
			}
		case "size":
			x.height = o.I("h")
			goterm.SetSize(x.height, 200)
		}
	}
	ops := sc.Ops
	for len(ops) > 0 && ops[0].S("op") != "adv" {
		setup(ops[0])
		ops = ops[1:]
	}
	os.Args = args
	ended := make(chan struct{})
	go func() {
		defer close(ended)
		main()
	}()
	// the driver looks half-way between the seconds, so that what happens on the second has happened
	time.Sleep(505 * time.Millisecond)
	show := func() {
		synctest.Wait()
		x.mu.Lock()
		defer x.mu.Unlock()
		r.Log(x.look())
	}
	show()
	for _, o := range ops {
		if o.S("op") != "adv" {
			setup(o)
			continue
		}
		for i := 0; i < o.I("s"); i++ {
			time.Sleep(time.Second)
			show()
		}
	}
	x.mu.Lock()
	x.stop = true
	x.mu.Unlock()
	close(x.quit)
	select {
	case <-ended:
	case <-time.After(10 * time.Second):
	}
	synctest.Wait()
}
