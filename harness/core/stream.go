package core

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/stack"
	"verif/hx"
)

// ---- sites: places in the code that record errors --------------------------

func here() string {
	pc, file, line, _ := runtime.Caller(1)
	return siteStr(file, line, runtime.FuncForPC(pc).Name())
}

func siteStr(file string, line int, full string) string {
	n := full
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	pkg := n
	if i := strings.Index(n, "."); i >= 0 {
		pkg, n = n[:i], n[i+1:]
	}
	return fmt.Sprintf("%s:%d %s %s", filepath.Base(file), line, pkg, n)
}

type errRecorder interface {
	EventErr(string, error) error
	EventErrKv(string, error, map[string]string) error
}

func siteJob(j *health.Job, ev string, err error) (error, string) {
	e, s := j.EventErr(ev, err), here()
	return e, s
}
func siteJobKv(j *health.Job, ev string, err error, m map[string]string) (error, string) {
	e, s := j.EventErrKv(ev, err, m), here()
	return e, s
}
func siteStream(st *health.Stream, ev string, err error) (error, string) {
	e, s := st.EventErr(ev, err), here()
	return e, s
}
func siteStreamKv(st *health.Stream, ev string, err error, m map[string]string) (error, string) {
	e, s := st.EventErrKv(ev, err, m), here()
	return e, s
}

type siteT struct{ r errRecorder }

func (t *siteT) plain(ev string, err error) (error, string) {
	e, s := t.r.EventErr(ev, err), here()
	return e, s
}
func (t siteT) kv(ev string, err error, m map[string]string) (error, string) {
	e, s := t.r.EventErrKv(ev, err, m), here()
	return e, s
}

func deep(n int, f func() (error, string)) (error, string) {
	if n == 0 {
		return f()
	}
	e, s := deep(n-1, f)
	return e, s
}

// recordErr records err at one of several sites.
func recordErr(rng *rand.Rand, conc bool, st *health.Stream, j *health.Job, ev string, err error, useKv bool, m map[string]string) (error, string) {
	var r errRecorder = j
	if st != nil {
		r = st
	}
	switch n := rng.Intn(5); {
	case n == 0 && !useKv:
		f := func() (error, string) { e, s := r.EventErr(ev, err), here(); return e, s }
		return deep(rng.Intn(80), f)
	case n == 0:
		return func() (error, string) { e, s := r.EventErrKv(ev, err, m), here(); return e, s }()
	case n == 1 && !useKv:
		return (&siteT{r}).plain(ev, err)
	case n == 1:
		return siteT{r}.kv(ev, err, m)
	case n == 2 && !conc:
		var e error
		var s string
		done := make(chan bool)
		go func() {
			defer close(done)
			if useKv {
				e, s = siteT{r}.kv(ev, err, m)
			} else {
				e, s = r.EventErr(ev, err), here()
			}
		}()
		<-done
		return e, s
	default:
		if st != nil {
			if useKv {
				return siteStreamKv(st, ev, err, m)
			}
			return siteStream(st, ev, err)
		}
		if useKv {
			return siteJobKv(j, ev, err, m)
		}
		return siteJob(j, ev, err)
	}
}

// ---- errors ----------------------------------------------------------------

type structErr struct{ a, b string }

func (e *structErr) Error() string { return e.a + e.b }

type valErr struct{ s string }

func (e valErr) Error() string { return e.s }

type sliceErr []string

func (e sliceErr) Error() string { return strings.Join(e, "") }

func sameErr(a, b error) bool {
	if sa, ok := a.(sliceErr); ok {
		sb, ok := b.(sliceErr)
		return ok && len(sa) > 0 && len(sb) > 0 && &sa[0] == &sb[0]
	}
	if _, ok := b.(sliceErr); ok {
		return false
	}
	return a == b
}

type errReg struct{ l []error }

func (g *errReg) ref(e error) string {
	if e == nil {
		return ""
	}
	for i, x := range g.l {
		if sameErr(x, e) {
			return "o" + strconv.Itoa(i+1)
		}
	}
	g.l = append(g.l, e)
	return "o" + strconv.Itoa(len(g.l))
}

func newRaw(rng *rand.Rand) error {
	t := hx.Pick(rng, hx.UTF8Names)
	if rng.Intn(12) == 0 {
		t = strings.Repeat(t+"long ", rng.Intn(2000))
	}
	switch rng.Intn(10) {
	case 0, 1:
		return &structErr{t, "!"}
	case 2, 3:
		return valErr{t + strconv.Itoa(rng.Intn(1e9))}
	case 4, 5:
		return sliceErr{t, "x"}
	case 6: // errors about errors that have been reported, or that are not to be
		return fmt.Errorf("%s: %w", t, &health.UnmutedError{Err: io.EOF, Emitted: true, Stack: stack.NewTrace(0)})
	case 7:
		return fmt.Errorf("%s: %w", t, health.Mute(io.EOF))
	case 8:
		return &embedErr{health.Mute(errors.New(t))}
	}
	return errors.New(t)
}

// embedErr is an error of the application's own that has a muted one inside.
type embedErr struct{ *health.MutedError }

// nilErr is an error even if it is a nil pointer.
type nilErr struct{}

func (e *nilErr) Error() string { return "nil" }

func safeText(e error) (s string) {
	defer func() {
		if recover() != nil {
			s = "<Error() panics>"
		}
	}()
	return e.Error()
}

func noErr() hx.Ev {
	return hx.Ev{"ref": "", "kind": "", "cause": "", "text": "", "site": "", "emitted": false}
}

func (g *errReg) proj(e error) hx.Ev {
	if e == nil {
		return hx.Ev{"ref": "", "kind": "nil", "cause": "", "text": "", "site": "", "emitted": false}
	}
	out := hx.Ev{"ref": g.ref(e), "kind": "raw", "cause": "", "text": hx.Lat(safeText(e)), "site": "", "emitted": false}
	switch x := e.(type) {
	case *health.MutedError:
		out["kind"] = "muted"
	case *health.UnmutedError:
		out["kind"] = "unmuted"
		out["cause"] = g.ref(x.Err)
		out["emitted"] = x.Emitted
		if x.Stack != nil {
			if fs := x.Stack.Frames(); len(fs) > 0 {
				out["site"] = siteStr(fs[0].File, fs[0].LineNumber, fs[0].Package+"."+fs[0].Name)
			}
		}
	}
	return out
}

// ---- recording sinks -------------------------------------------------------

type delivery struct {
	sink string
	m    string
	job  string
	ev   string
	v    int64
	g    float64
	st   health.CompletionStatus
	err  error
	e    hx.Ev
	kv   map[string]string
}

type recSink struct {
	id  string
	out func(delivery)
	reg *errReg
}

func cp(m map[string]string) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (s *recSink) EmitEvent(job, ev string, kvs map[string]string) {
	s.out(delivery{sink: s.id, m: "event", job: job, ev: ev, kv: cp(kvs)})
}
func (s *recSink) EmitEventErr(job, ev string, err error, kvs map[string]string) {
	var e hx.Ev
	if s.reg != nil && job != hiddenName {
		e = s.reg.proj(err)
	}
	s.out(delivery{sink: s.id, m: "err", job: job, ev: ev, err: err, e: e, kv: cp(kvs)})
}
func (s *recSink) EmitTiming(job, ev string, n int64, kvs map[string]string) {
	s.out(delivery{sink: s.id, m: "timing", job: job, ev: ev, v: n, kv: cp(kvs)})
}
func (s *recSink) EmitComplete(job string, st health.CompletionStatus, n int64, kvs map[string]string) {
	s.out(delivery{sink: s.id, m: "complete", job: job, st: st, v: n, kv: cp(kvs)})
}
func (s *recSink) EmitGauge(job, ev string, v float64, kvs map[string]string) {
	s.out(delivery{sink: s.id, m: "gauge", job: job, ev: ev, g: v, kv: cp(kvs)})
}

func gTok(v float64) string { return fmt.Sprintf("%016x", math.Float64bits(v)) }

var timingPool = []int64{0, 1, -1, 999, 1000, 123456789, math.MaxInt64, math.MinInt64, 1e6, 1e9, 59999999999}

var allGauges = append(append([]float64{}, gaugePool...), math.NaN(), math.Inf(1), math.Inf(-1))

func stName(st health.CompletionStatus) string {
	for n, x := range statusByName {
		if x == st {
			return n
		}
	}
	return fmt.Sprintf("status%d", int(st))
}

// ---- panics ----------------------------------------------------------------

type stringer struct{ s string }

func (s stringer) String() string { return "stringer:" + s.s }

// derefErr and derefStringer cannot be asked what they say if they are nil pointers, boomErr never can.
type derefErr struct{ s string }
type derefStringer struct{ s string }
type boomErr struct{}

func (e *derefErr) Error() string       { return e.s }
func (e *derefStringer) String() string { return e.s }
func (e boomErr) Error() string         { panic("boom") }

func panicSiteString(s string) { panic(s) }
func panicSiteError(s string)  { panic(errors.New(s)) }
func panicSiteValue(v interface{}) {
	panic(v)
}
func panicSiteIndex(a []int, i int) int { return a[i] }
func panicSiteNilMap(m map[string]int)  { m["x"] = 1 }

func doPanic(rng *rand.Rand, note func(text, fn string)) {
	t := hx.Pick(rng, hx.UTF8Names)
	switch rng.Intn(14) {
	case 11, 12, 13:
		v := []interface{}{(*derefErr)(nil), (*derefStringer)(nil), boomErr{}, &derefErr{t}, &derefStringer{t}}[rng.Intn(5)]
		note(fmt.Sprint(v), "panicSiteValue")
		panicSiteValue(v)
	case 8:
		note(t, "panicSiteValue")
		panicSiteValue(health.Mute(errors.New(t)))
	case 9:
		note(t, "panicSiteValue")
		panicSiteValue(&health.UnmutedError{Err: errors.New(t)})
	case 10:
		note(t+"!", "panicSiteValue")
		panicSiteValue(&structErr{t, "!"})
	case 7:
		note(new(runtime.PanicNilError).Error(), "panicSiteValue")
		panicSiteValue(nil)
	case 0:
		note(t, "panicSiteString")
		panicSiteString(t)
	case 1:
		note(t, "panicSiteError")
		panicSiteError(t)
	case 2:
		note("42", "panicSiteValue")
		panicSiteValue(42)
	case 3:
		v := stringer{t}
		note("stringer:"+t, "panicSiteValue")
		panicSiteValue(v)
	case 4:
		note("runtime error: index out of range [5] with length 2", "panicSiteIndex")
		panicSiteIndex(make([]int, 2), 5)
	case 5:
		note("assignment to entry in nil map", "panicSiteNilMap")
		panicSiteNilMap(nil)
	case 6:
		v := struct {
			A int
			B string
		}{7, t}
		note(fmt.Sprint(v), "panicSiteValue")
		panicSiteValue(v)
	}
}

// ---- the driver ------------------------------------------------------------

type streamRun struct {
	sc      *hx.Scenario
	rng     *rand.Rand
	r       *hx.Rec
	pos     int
	unit    int64
	reg     *errReg
	streams map[int]*health.Stream
	jobs    map[int]*health.Job
	owner   map[int]int // own job -> stream
	sinks   map[string]*recSink
	pending []delivery
	maps    map[string]map[string]string
	names   *hx.NameSet
	evs     *hx.NameSet
	keys    *hx.NameSet
	vals    *hx.NameSet
	gs      map[string]error // raw errors
	rets    []error
	muted   error
	pstack  string
	depth   int
	conc    bool        // one of several goroutines on the same streams
	put     func(hx.Ev) // where events go
	hidden  *health.Job // a sink records on it while it is being called
	nested  bool
	many    bool // many sinks, some attached more than once, and many key/values
}

// hiddenName is the job on which a sink itself records; its deliveries are not part of the story.
const hiddenName = "\x00recorded by a sink\x00"

func Stream(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	if sc.Cfg.B("conc") {
		streamConc(sc, rng, r)
		return
	}
	x := newStreamRun(sc, rng, r)
	r.SetCfg(hx.Ev{"maps": x.mapsProj(), "note": fmt.Sprintf("unit=%dns", x.unit)})
	done := make(chan bool)
	go func() {
		defer close(done)
		x.setup()
		if rng.Intn(3) == 0 {
			x.hidden = x.streams[1+rng.Intn(2)].NewJob(hiddenName)
		}
		for x.pos < len(sc.Ops) || x.depth > 0 {
			x.step()
		}
		x.probe()
	}()
	select {
	case <-done:
	case <-time.After(1000 * time.Hour):
		r.Log(hx.Ev{"op": "hang", "what": "stream call"})
	}
}

// streamConc has several goroutines execute the scenario at once, each with its own jobs,
// errors and maps, on shared streams with shared sinks. The sinks tell by the goroutine that
// calls them whose recording it is, so each goroutine has its own sequential story.
func streamConc(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	const N = 6
	r.SetCfg(hx.Ev{"maps": hx.Ev{"m1": hx.Ev{}, "m2": hx.Ev{}}, "note": "concurrent"})
	var mu sync.Mutex
	byGoid := map[string]*streamRun{}
	runs := make([]*streamRun, N)
	logs := make([][]hx.Ev, N)
	var proto *streamRun
	done := make(chan bool)
	go func() {
		defer close(done)
		proto = newStreamRun(sc, rng, r)
		proto.many = false
		var pre []hx.Ev
		proto.put = func(e hx.Ev) { pre = append(pre, e) }
		proto.setup()
		for s := 1; s <= 2; s++ {
			for k := 1; k <= 1+rng.Intn(3); k++ {
				id := "k" + strconv.Itoa(k)
				sk := proto.sink(id)
				sk.out = func(d delivery) {
					mu.Lock()
					x := byGoid[goid()]
					mu.Unlock()
					if d.m == "err" && d.job != hiddenName {
						d.e = x.reg.proj(d.err)
					}
					x.got(d)
					runtime.Gosched()
				}
				sk.reg = nil
				proto.streams[s].AddSink(sk)
				proto.log(hx.Ev{"op": "addsink", "s": s, "sink": id})
			}
			for k := 0; k < rng.Intn(3); k++ {
				key, v := proto.keys.Get([]string{"x", "y", "z"}[k]), proto.vals.Get("a")
				proto.streams[s].KeyValue(key, v)
				proto.log(hx.Ev{"op": "skv", "s": s, "key": hx.Lat(key), "val": hx.Lat(v)})
			}
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := 0; i < N; i++ {
			i := i
			x := newStreamRun(sc, rand.New(rand.NewSource(rng.Int63())), r)
			x.conc, x.unit, x.keys = true, proto.unit, proto.keys
			for s := 1; s <= 2; s++ {
				x.streams[s], x.jobs[s], x.owner[s] = proto.streams[s], proto.jobs[s], s
			}
			logs[i] = append(logs[i], hx.Ev{"op": "reset", "maps": x.mapsProj()})
			for _, e := range pre {
				c := hx.Ev{}
				for k, v := range e {
					c[k] = v
				}
				c["maps"] = x.mapsProj()
				logs[i] = append(logs[i], c)
			}
			x.put = func(e hx.Ev) { logs[i] = append(logs[i], e) }
			if rng.Intn(3) == 0 {
				x.hidden = x.streams[1+rng.Intn(2)].NewJob(hiddenName)
			}
			runs[i] = x
			wg.Add(1)
			go func() {
				defer wg.Done()
				mu.Lock()
				byGoid[goid()] = x
				mu.Unlock()
				<-start
				for x.pos < len(sc.Ops) || x.depth > 0 {
					x.step()
				}
				x.probe()
			}()
		}
		close(start)
		wg.Wait()
	}()
	select {
	case <-done:
		for _, l := range logs {
			for _, e := range l {
				r.Log(e)
			}
		}
	case <-time.After(1000 * time.Hour):
		r.Log(hx.Ev{"op": "hang", "what": "concurrent stream calls"})
	}
}

func goid() string {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	return strings.Fields(s)[1]
}

func newStreamRun(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) *streamRun {
	x := &streamRun{sc: sc, rng: rng, r: r, put: r.Log, reg: &errReg{}, streams: map[int]*health.Stream{}, jobs: map[int]*health.Job{}, owner: map[int]int{},
		sinks: map[string]*recSink{}, maps: map[string]map[string]string{}, gs: map[string]error{}}
	x.names, x.evs = hx.NewJobs(rng, hx.ByteNames), hx.NewNames(rng, hx.ByteNames)
	x.keys, x.vals = hx.NewNames(rng, hx.ByteNames), hx.NewNames(rng, hx.ByteNames)
	if rng.Intn(6) == 0 {
		[]*hx.NameSet{x.names, x.evs, x.keys, x.vals}[rng.Intn(4)].Long()
	}
	x.unit = []int64{1, 3, 1000, 12345, 1000000, 50000000, 1000000000, 3600000000000}[rng.Intn(8)]
	x.many = rng.Intn(6) == 0
	x.muted = health.Mute(newRaw(rng))
	x.maps["m1"] = map[string]string{}
	x.maps["m2"] = map[string]string{}
	for i, k := range []string{"x", "y", "z"} {
		if rng.Intn(2) == 0 {
			x.maps["m1"][x.keys.Get(k)] = x.vals.Get("m" + strconv.Itoa(i))
		}
		if rng.Intn(3) == 0 {
			x.maps["m2"][x.keys.Get(k)] = x.vals.Get("M" + strconv.Itoa(i))
		}
	}
	if x.many {
		for i, n := 0, rng.Intn(40); i < n; i++ {
			x.maps["m1"][x.keys.Get("b"+strconv.Itoa(rng.Intn(40)))] = x.vals.Get("m" + strconv.Itoa(i%5))
		}
	}
	return x
}

// bulk gives a stream many sinks and key/values.
func (x *streamRun) bulk(s int) {
	for i, n := 0, x.rng.Intn(20); i < n; i++ {
		id := "k" + strconv.Itoa(1+x.rng.Intn(12))
		x.streams[s].AddSink(x.sink(id))
		x.log(hx.Ev{"op": "addsink", "s": s, "sink": id})
	}
	for i, n := 0, x.rng.Intn(40); i < n; i++ {
		k, v := x.keys.Get("b"+strconv.Itoa(x.rng.Intn(40))), x.vals.Get("s"+strconv.Itoa(i%5))
		x.streams[s].KeyValue(k, v)
		x.log(hx.Ev{"op": "skv", "s": s, "key": hx.Lat(k), "val": hx.Lat(v)})
	}
}

func (x *streamRun) bulkJob(j int) {
	for i, n := 0, x.rng.Intn(40); i < n; i++ {
		k, v := x.keys.Get("b"+strconv.Itoa(x.rng.Intn(40))), x.vals.Get("j"+strconv.Itoa(i%5))
		x.jobs[j].KeyValue(k, v)
		x.log(hx.Ev{"op": "jkv", "j": j, "key": hx.Lat(k), "val": hx.Lat(v)})
	}
}

func (x *streamRun) setup() {
	for s := 1; s <= 2; s++ {
		if s == 2 {
			// streams need not be of the same age
			n := x.rng.Intn(3)
			time.Sleep(time.Duration(int64(n) * x.unit))
			x.log(hx.Ev{"op": "adv", "n": n})
		}
		x.streams[s] = health.NewStream()
		x.jobs[s] = x.streams[s].Job
		x.owner[s] = s
		x.log(hx.Ev{"op": "newstream", "s": s, "j": s})
		if x.many && !x.conc {
			x.bulk(s)
			x.bulkJob(s)
		}
	}
}

// got takes one delivery to a sink.
func (x *streamRun) got(d delivery) {
	if d.job == hiddenName {
		return
	}
	x.pending = append(x.pending, d)
	if x.hidden != nil && !x.nested && d.sink == "k1" {
		x.nested = true
		switch x.rng.Intn(3) {
		case 0:
			x.hidden.EventKv("e", map[string]string{"nested": "1"})
		case 1:
			x.hidden.EventErrKv("e", errors.New("nested"), map[string]string{"nested": "1"})
		default:
			x.hidden.Run(func() error { panic("nested") })
		}
		x.nested = false
	}
}

// probe records on every job once more, so that whatever the scenario left behind is seen.
func (x *streamRun) probe() {
	for s := 1; s <= 2 && !x.conc; s++ {
		x.streams[s].AddSink(x.sink("k9"))
		x.log(hx.Ev{"op": "addsink", "s": s, "sink": "k9"})
	}
	for j := 1; j <= 64; j++ {
		if x.jobs[j] == nil {
			continue
		}
		ms := []string{"event", "complete", "timing", "gauge"}
		x.rec(hx.Op{"op": "rec", "j": float64(j), "m": ms[x.rng.Intn(4)], "ev": "n1", "kv": "", "st": "junk"})
		x.rec(hx.Op{"op": "rec", "j": float64(j), "m": ms[x.rng.Intn(4)], "ev": "n1", "kv": "m1", "st": "junk"})
	}
}

func (x *streamRun) mapsProj() hx.Ev {
	return hx.Ev{"m1": hx.LatMap(x.maps["m1"]), "m2": hx.LatMap(x.maps["m2"])}
}

func (x *streamRun) collect() []hx.Ev {
	out := []hx.Ev{}
	for _, d := range x.pending {
		e := hx.Ev{"sink": d.sink, "m": d.m, "job": hx.Lat(d.job), "ev": hx.Lat(d.ev), "v": "", "g": "", "st": "", "kv": hx.LatMap(d.kv), "e": noErr()}
		switch d.m {
		case "timing":
			e["v"] = strconv.FormatInt(d.v, 10)
		case "gauge":
			e["g"] = gTok(d.g)
		case "complete":
			e["st"] = stName(d.st)
			if d.v%x.unit == 0 {
				e["v"] = strconv.FormatInt(d.v/x.unit, 10)
			} else {
				e["v"] = "bad:" + strconv.FormatInt(d.v, 10)
			}
		case "err":
			e["e"] = d.e
		}
		out = append(out, e)
	}
	x.pending = nil
	return out
}

func (x *streamRun) log(e hx.Ev) {
	e["del"] = x.collect()
	e["maps"] = x.mapsProj()
	sk, jk := hx.Ev{}, hx.Ev{}
	for s, st := range x.streams {
		sk[strconv.Itoa(s)] = hx.LatMap(st.KeyValues)
	}
	for j, jb := range x.jobs {
		jk[strconv.Itoa(j)] = hx.LatMap(jb.KeyValues)
	}
	e["sk"], e["jk"] = sk, jk
	x.put(e)
}

func (x *streamRun) sink(id string) *recSink {
	if s, ok := x.sinks[id]; ok {
		return s
	}
	s := &recSink{id: id, reg: x.reg, out: x.got}
	x.sinks[id] = s
	return s
}

func (x *streamRun) callerMap(id string) (map[string]string, bool) {
	switch id {
	case "":
		return nil, false
	case "nil":
		return nil, true
	case "empty":
		return map[string]string{}, true
	}
	return x.maps[id], true
}

// step executes one operation; inside a run it is called from the running function.
func (x *streamRun) step() {
	if x.pos >= len(x.sc.Ops) {
		return
	}
	o := x.sc.Ops[x.pos]
	x.pos++
	if x.conc {
		// the streams and their own jobs are shared: they are not changed any more
		if op := o.S("op"); op == "addsink" || op == "skv" || op == "skvdel" || ((op == "jkv" || op == "jkvdel") && o.I("j") <= 2) {
			return
		}
	}
	switch o.S("op") {
	case "addsink":
		id := o.S("sink")
		if x.rng.Intn(6) == 0 {
			id = "k1" // maybe attached before, here or there
		}
		x.streams[o.I("s")].AddSink(x.sink(id))
		x.log(hx.Ev{"op": "addsink", "s": o.I("s"), "sink": id})
	case "skv":
		k, v := x.keys.Get(o.S("key")), x.vals.Get(o.S("val"))
		if st := x.streams[o.I("s")]; st.KeyValues != nil && x.rng.Intn(4) == 0 {
			st.KeyValues[k] = v
		} else {
			st.KeyValue(k, v)
		}
		x.log(hx.Ev{"op": "skv", "s": o.I("s"), "key": hx.Lat(k), "val": hx.Lat(v)})
	case "jkv":
		k, v := x.keys.Get(o.S("key")), x.vals.Get(o.S("val"))
		if j := x.jobs[o.I("j")]; j.KeyValues != nil && x.rng.Intn(4) == 0 {
			j.KeyValues[k] = v
		} else {
			j.KeyValue(k, v)
		}
		x.log(hx.Ev{"op": "jkv", "j": o.I("j"), "key": hx.Lat(k), "val": hx.Lat(v)})
	case "skvdel": // directly in the exported field
		k := x.keys.Get(o.S("key"))
		delete(x.streams[o.I("s")].KeyValues, k)
		x.log(hx.Ev{"op": "skvdel", "s": o.I("s"), "key": hx.Lat(k)})
	case "jkvdel":
		k := x.keys.Get(o.S("key"))
		delete(x.jobs[o.I("j")].KeyValues, k)
		x.log(hx.Ev{"op": "jkvdel", "j": o.I("j"), "key": hx.Lat(k)})
	case "rename":
		n := x.names.Get(o.S("name"))
		x.jobs[o.I("j")].JobName = n
		x.log(hx.Ev{"op": "rename", "j": o.I("j"), "name": hx.Lat(n)})
	case "ckv":
		k, v := x.keys.Get(o.S("key")), x.vals.Get(o.S("val"))
		x.maps[o.S("m")][k] = v
		x.log(hx.Ev{"op": "ckv", "m": o.S("m"), "key": hx.Lat(k), "val": hx.Lat(v)})
	case "newjob":
		n := x.names.Get(o.S("name"))
		x.jobs[o.I("j")] = x.streams[o.I("s")].NewJob(n)
		x.log(hx.Ev{"op": "newjob", "s": o.I("s"), "j": o.I("j"), "name": hx.Lat(n)})
		if x.many && x.rng.Intn(2) == 0 {
			x.bulkJob(o.I("j"))
		}
	case "adv":
		time.Sleep(time.Duration(int64(o.I("n")) * x.unit))
		x.log(hx.Ev{"op": "adv", "n": o.I("n")})
	case "rec":
		x.rec(o)
	case "runjob", "runstream":
		x.run(o)
	case "runend":
		// handled by run; a stray one (never generated) is ignored
	}
}

func (x *streamRun) rec(o hx.Op) {
	jid, m := o.I("j"), o.S("m")
	j := x.jobs[jid]
	var st *health.Stream
	if s, ok := x.owner[jid]; ok && x.rng.Intn(3) > 0 {
		st = x.streams[s]
	}
	kvm, useKv := x.callerMap(o.S("kv"))
	kvid := o.S("kv")
	if kvid == "nil" || kvid == "empty" {
		kvid = ""
	}
	ev := ""
	if m != "complete" {
		ev = x.evs.Get(o.S("ev"))
	}
	e := hx.Ev{"op": "rec", "j": jid, "m": m, "ev": hx.Lat(ev), "v": "", "g": "", "st": "", "kv": kvid,
		"arg": hx.Ev{"ref": "", "kind": "", "text": ""}, "newref": "", "site": "", "ret": hx.Ev{"ref": "", "kind": "", "cause": "", "text": "", "site": ""}}
	var er health.EventReceiver = j
	if st != nil {
		er = st
	}
	iface := x.rng.Intn(2) == 0
	switch m {
	case "event":
		switch {
		case useKv && iface:
			er.EventKv(ev, kvm)
		case useKv:
			j.EventKv(ev, kvm)
		case st != nil:
			st.Event(ev)
		case iface:
			er.Event(ev)
		default:
			j.Event(ev)
		}
	case "timing":
		v := timingPool[x.rng.Intn(len(timingPool))]
		e["v"] = strconv.FormatInt(v, 10)
		switch {
		case useKv && iface:
			er.TimingKv(ev, v, kvm)
		case useKv:
			j.TimingKv(ev, v, kvm)
		case st != nil:
			st.Timing(ev, v)
		case iface:
			er.Timing(ev, v)
		default:
			j.Timing(ev, v)
		}
	case "gauge":
		v := allGauges[x.rng.Intn(len(allGauges))]
		e["g"] = gTok(v)
		switch {
		case useKv && iface:
			er.GaugeKv(ev, v, kvm)
		case useKv:
			j.GaugeKv(ev, v, kvm)
		case st != nil:
			st.Gauge(ev, v)
		case iface:
			er.Gauge(ev, v)
		default:
			j.Gauge(ev, v)
		}
	case "complete":
		cs := statusByName[o.S("st")]
		e["st"] = o.S("st")
		switch {
		case useKv && st != nil:
			st.CompleteKv(cs, kvm)
		case useKv:
			j.CompleteKv(cs, kvm)
		case st != nil:
			st.Complete(cs)
		default:
			j.Complete(cs)
		}
	case "err":
		a, _ := o["arg"].(map[string]interface{})
		ao := hx.Op(a)
		var err error
		switch ao.S("kind") {
		case "raw":
			err = x.gs[ao.S("ref")]
			if err == nil {
				err = newRaw(x.rng)
				if x.rng.Intn(6) == 0 { // the application can wrap errors itself
					u := &health.UnmutedError{Err: err}
					if x.rng.Intn(2) == 0 {
						u.Stack = stack.NewTrace(0)
					}
					err = u
				}
				x.gs[ao.S("ref")] = err
			}
		case "muted":
			err = x.muted
		default:
			n, _ := strconv.Atoi(ao.S("ref"))
			err = x.rets[n-1]
		}
		in := x.reg.proj(err)
		e["arg"] = hx.Ev{"ref": in["ref"], "kind": in["kind"], "text": in["text"], "cause": in["cause"], "site": in["site"]}
		ret, site := recordErr(x.rng, x.conc, st, j, ev, err, useKv, kvm)
		x.rets = append(x.rets, ret)
		p := x.reg.proj(ret)
		e["newref"] = p["ref"]
		e["site"] = site
		e["ret"] = hx.Ev{"ref": p["ref"], "kind": p["kind"], "cause": p["cause"], "text": p["text"], "site": p["site"]}
		if ret == nil {
			x.rets[len(x.rets)-1] = err // keep the scenario going
		}
	}
	x.log(e)
}

func (x *streamRun) run(o hx.Op) {
	entered := 0
	var out, ptext, pfn string
	var ferr error
	f := func() error {
		entered++
		if entered > 1 {
			return nil
		}
		e := hx.Ev{"op": o.S("op"), "j": o.I("j")}
		if o.S("op") == "runstream" {
			e["s"] = o.I("s")
			e["name"] = hx.Lat(x.names.Get(o.S("name")))
		}
		x.log(e)
		x.depth++
		defer func() { x.depth-- }()
		out = "ok"
		for x.pos < len(x.sc.Ops) {
			if x.sc.Ops[x.pos].S("op") == "runend" {
				out = x.sc.Ops[x.pos].S("out")
				x.pos++
				break
			}
			x.step()
		}
		switch out {
		case "error":
			switch n := x.rng.Intn(3); {
			case n == 0 && len(x.rets) > 0:
				ferr = x.rets[x.rng.Intn(len(x.rets))]
			case n == 1:
				ferr = x.muted
				switch x.rng.Intn(8) {
				case 0: // nil pointers are errors, too
					ferr = (*nilErr)(nil)
				case 1:
					ferr = (*health.MutedError)(nil)
				}
			default:
				ferr = newRaw(x.rng)
			}
			return ferr
		case "panic":
			doPanic(x.rng, func(t, fn string) { ptext, pfn = t, fn })
		}
		return nil
	}
	var ret error
	escaped := false
	func() {
		defer func() {
			if v := recover(); v != nil {
				escaped = true
			}
		}()
		if o.S("op") == "runstream" {
			ret = x.streams[o.I("s")].Run(x.names.Get(o.S("name")), f)
		} else if s, ok := x.owner[o.I("j")]; ok && x.rng.Intn(2) == 0 {
			ret = x.streams[s].Job.Run(f)
		} else {
			ret = x.jobs[o.I("j")].Run(f)
		}
	}()
	if entered != 1 {
		x.put(hx.Ev{"op": "badrun", "what": fmt.Sprintf("function called %d times", entered)})
		return
	}
	newref := ""
	for i := range x.pending {
		d := &x.pending[i]
		if d.m == "err" && d.ev == "panic" && out == "panic" {
			if newref == "" {
				newref, _ = d.e["ref"].(string)
			}
			// what exactly the cause and stack of a panic's error are is not specified
			d.e["cause"], d.e["site"] = "*", "*"
			if s, ok := d.kv["stack"]; ok && strings.Contains(s, pfn) {
				d.kv["stack"] = "STACK"
			}
		}
	}
	e := hx.Ev{"op": "runend", "out": out, "text": hx.Lat(ptext), "newref": newref, "stack": "STACK", "escaped": escaped, "eref": x.reg.ref(ferr),
		"ret": hx.Ev{"nil": ret == nil, "ref": x.reg.ref(ret), "text": ""}}
	if ret != nil {
		e["ret"].(hx.Ev)["text"] = hx.Lat(safeText(ret))
	}
	x.log(e)
}
