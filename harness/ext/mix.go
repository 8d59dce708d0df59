package ext

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/sinks/librato"
	"verif/hx"
)

// mixRun is one application: a stream, its jobs, and sinks of all kinds.
type mixRun struct {
	run    int
	id     string
	rng    *rand.Rand
	ms     int64
	evs    []hx.Ev
	stream *health.Stream
	sinks  []*mixSink
	jobs   map[string]*health.Job
	starts map[string]time.Time
	skv    map[string]string
	jkv    map[string]map[string]string
	maps   map[string]map[string]string
	errs   map[string]error // what recording calls returned
	raws   map[string]error
	emit   map[error]bool
	stack  string // of the last panic, as the application's own sink saw it
	stacks []string
	modes  map[string]string
	mu     sync.Mutex
	hands  *mixHandlers
}

type mixSink struct {
	kind    string
	mu      sync.Mutex
	w       []string // writes
	posts   []hx.Ev
	seen    []hx.Ev
	udp     *hx.UDP
	poll    *health.JsonPollingSink
	statsd  *health.StatsDSink
	lib     *librato.Sink
	bug     *bugsnag.Sink
	own     *mixRun
	keySeen func(string)
}

// mixHandlers dispatches requests to the sinks they come from.
type mixHandlers struct {
	mu sync.Mutex
	m  map[string]func(req *http.Request, body []byte) (*http.Response, error)
}

func (h *mixHandlers) set(key string, f func(req *http.Request, body []byte) (*http.Response, error)) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.m[key] = f
}

func (h *mixHandlers) handle(req *http.Request, body []byte) (*http.Response, error) {
	key := req.URL.String()
	if u, _, ok := req.BasicAuth(); ok {
		key = u
	}
	h.mu.Lock()
	f := h.m[key]
	h.mu.Unlock()
	if f == nil {
		return nil, errors.New("no such host")
	}
	return f(req, body)
}

// Write makes the sink the writer of a text or JSON sink.
func (s *mixSink) Write(p []byte) (int, error) {
	s.mu.Lock()
	s.w = append(s.w, string(p))
	s.mu.Unlock()
	switch s.own.mode(s.kind) {
	case "fail":
		return 0, errors.New("no space left on device")
	case "partial":
		return len(p) / 2, io.ErrShortWrite
	}
	return len(p), nil
}

func (m *mixRun) mode(kind string) string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.modes[kind]
}

// answer is what an endpoint of that kind does at the moment.
func (m *mixRun) answer(kind, good string) (*http.Response, error) {
	switch m.mode(kind) {
	case "fail":
		return nil, errors.New("connection refused")
	case "reject":
		return hx.Response(403, hx.NewBody("no", -1)), nil
	case "partial":
		return hx.Response(200, hx.NewBody(good+"...", 1)), nil
	case "stall":
		time.Sleep(20 * time.Second)
	}
	return hx.Response(200, hx.NewBody(good, -1)), nil
}

// The application's own sink.
func (s *mixSink) rec(k, job, ev string, v int64, g float64, st, err string, kvs map[string]string) {
	v1 := int64(hx.Bad)
	if v%(s.own.ms*1e6) == 0 {
		v1 = v / (s.own.ms * 1e6)
	}
	e := hx.Ev{"k": k, "job": hx.Lat(job), "ev": hx.Lat(ev), "v": v1, "g": hx.UnitF(g, 0.5), "st": st, "err": hx.Lat(err), "kvs": s.own.pairs(kvs)}
	s.mu.Lock()
	s.seen = append(s.seen, e)
	s.mu.Unlock()
}
func (s *mixSink) EmitEvent(job string, event string, kvs map[string]string) {
	s.rec("event", job, event, 0, 0, "", "", kvs)
}
func (s *mixSink) EmitEventErr(job string, event string, err error, kvs map[string]string) {
	if st, ok := kvs["stack"]; ok && event == "panic" {
		s.own.mu.Lock()
		s.own.stack = st
		if len(s.own.stacks) == 0 || s.own.stacks[len(s.own.stacks)-1] != st {
			s.own.stacks = append(s.own.stacks, st)
		}
		s.own.mu.Unlock()
	}
	s.rec("err", job, event, 0, 0, "", err.Error(), kvs)
}
func (s *mixSink) EmitTiming(job string, event string, nanos int64, kvs map[string]string) {
	s.rec("timing", job, event, nanos, 0, "", "", kvs)
}
func (s *mixSink) EmitComplete(job string, status health.CompletionStatus, nanos int64, kvs map[string]string) {
	s.rec("complete", job, "", nanos, 0, status.String(), "", kvs)
}
func (s *mixSink) EmitGauge(job string, event string, value float64, kvs map[string]string) {
	s.rec("gauge", job, event, 0, value, "", "", kvs)
}

// hide replaces the text of stacks, which differ from run to run.
func (m *mixRun) hide(s string) string {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, st := range m.stacks {
		s = strings.ReplaceAll(strings.ReplaceAll(s, st, "S"), clip(st), "S")
	}
	return s
}

func (m *mixRun) pairs(kvs map[string]string) []hx.Ev {
	out := []hx.Ev{}
	for _, p := range hx.KvList(kvs) {
		b := []int{}
		for i := 0; i < len(p[0]); i++ {
			b = append(b, int(p[0][i]))
		}
		out = append(out, hx.Ev{"k": p[0], "v": m.hide(p[1]), "b": b})
	}
	return out
}

func (m *mixRun) log(e hx.Ev) {
	e["run"] = m.run
	m.evs = append(m.evs, e)
}

func (m *mixRun) attach(kind string) {
	s := &mixSink{kind: kind, own: m}
	n := len(m.sinks)
	e := hx.Ev{"op": "attach", "kind": kind, "prefix": "", "skiptop": false, "skipnested": false}
	tag := fmt.Sprintf("%s-%d-%d", m.id, m.run, n)
	var sink health.Sink
	switch kind {
	case "app":
		sink = s
	case "text":
		sink = &health.WriterSink{Writer: s}
	case "json":
		sink = &health.JsonWriterSink{Writer: s}
	case "statsd", "dead":
		s.udp = hx.NewUDP()
		o := &health.StatsDSinkOptions{Prefix: hx.Pick(m.rng, []string{"", "p", "q.r"}), SkipTopLevelEvents: m.rng.Intn(4) == 0, SkipNestedEvents: m.rng.Intn(4) == 0}
		e["prefix"], e["skiptop"], e["skipnested"] = o.Prefix, o.SkipTopLevelEvents, o.SkipNestedEvents
		addr := s.udp.Addr()
		if kind == "dead" && m.rng.Intn(2) == 0 {
			addr = "127.0.0.1:0" // sending fails
		}
		x, err := health.NewStatsDSink(addr, o)
		if err != nil {
			panic("harness: " + err.Error())
		}
		s.statsd, sink = x, x
		if kind == "dead" {
			s.udp.Close()
		}
	case "poll":
		s.poll = health.NewJsonPollingSink([]time.Duration{time.Minute, time.Hour, 30 * time.Minute}[m.rng.Intn(3)], 24*time.Hour)
		sink = s.poll
	case "librato":
		p := hx.Pick(m.rng, []string{"", "p", "q.r"})
		e["prefix"] = p
		m.hands.set(tag, func(req *http.Request, body []byte) (*http.Response, error) {
			x := readMetrics(req, body, float64(m.ms), 0.5, tag)
			s.mu.Lock()
			s.posts = append(s.posts, x)
			s.mu.Unlock()
			return m.answer("librato", "")
		})
		s.lib = librato.New(tag, "key", p)
		sink = s.lib
	case "bugsnag":
		url := "http://bugsnag.test/" + tag
		m.hands.set(url, func(req *http.Request, body []byte) (*http.Response, error) {
			x := readPost(req, body)
			delete(x, "stack")
			s.mu.Lock()
			s.posts = append(s.posts, x)
			s.mu.Unlock()
			return m.answer("bugsnag", "OK")
		})
		s.bug = bugsnag.NewSink(&bugsnag.Config{APIKey: tag, Endpoint: url})
		sink = s.bug
		e["prefix"] = tag
	}
	m.stream.AddSink(sink)
	m.sinks = append(m.sinks, s)
	m.log(e)
}

func (m *mixRun) job(id string) (*health.Job, string) {
	if id == "stream" {
		return m.stream.Job, "general"
	}
	if m.jobs[id] == nil {
		m.jobs[id], m.starts[id] = m.stream.NewJob(id), time.Now()
		m.jkv[id] = map[string]string{}
	}
	return m.jobs[id], id
}

func (m *mixRun) union(jid string, kvs map[string]string) map[string]string {
	u := map[string]string{}
	for _, x := range []map[string]string{m.skv, m.jkv[jid], kvs} {
		for k, v := range x {
			u[k] = v
		}
	}
	return u
}

func (m *mixRun) base(k, job string, kvs map[string]string) hx.Ev {
	return hx.Ev{"k": k, "job": job, "ev": "", "v": 0, "g": 0, "st": "", "err": "", "due": false, "kvs": m.pairs(kvs), "t": hx.Civil(time.Now())}
}

func copyMap(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	out := map[string]string{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func sameMap(a, b map[string]string) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func (m *mixRun) elapsed(id string) int64 {
	return int64(time.Since(m.starts[id])) / (m.ms * 1e6)
}

func (m *mixRun) rec(o hx.Op) {
	job, name := m.job(o.S("job"))
	kvs := m.maps[o.S("kv")]
	kind := o.S("k")
	e := m.base(kind, name, m.union(o.S("job"), kvs))
	before := copyMap(kvs)
	jobBefore := copyMap(m.jkv[o.S("job")])
	v, g := int64(o.I("v"))*m.ms*1e6, float64(o.I("g"))*0.5
	plain := o.S("kv") == ""
	same := true
	if kind != "complete" {
		e["ev"] = o.S("ev")
	}
	switch kind {
	case "event":
		if plain {
			job.Event(o.S("ev"))
		} else {
			job.EventKv(o.S("ev"), kvs)
		}
	case "timing":
		e["v"] = o.I("v")
		if plain {
			job.Timing(o.S("ev"), v)
		} else {
			job.TimingKv(o.S("ev"), v, kvs)
		}
	case "gauge":
		e["g"] = o.I("g")
		if plain {
			job.Gauge(o.S("ev"), g)
		} else {
			job.GaugeKv(o.S("ev"), g, kvs)
		}
	case "complete":
		e["v"], e["st"] = m.elapsed(o.S("job")), o.S("st")
		if plain {
			job.Complete(statuses[o.S("st")])
		} else {
			job.CompleteKv(statuses[o.S("st")], kvs)
		}
	case "err":
		x := o.S("x")
		if m.raws[x] == nil {
			m.raws[x] = errors.New("why " + x)
		}
		e["err"] = "why " + x
		arg, due := m.raws[x], true
		if m.rng.Intn(8) == 0 { // wrapped by the application itself
			arg = &health.UnmutedError{Err: arg}
		}
		switch o.S("how") {
		case "muted":
			arg, due = health.Mute(m.raws[x]), false
		case "again":
			if m.errs[x] != nil {
				arg, due = m.errs[x], false
			}
		}
		e["due"] = due
		var ret error
		if plain {
			ret = job.EventErr(o.S("ev"), arg)
		} else {
			ret = job.EventErrKv(o.S("ev"), arg, kvs)
		}
		same = ret != nil && ret.Error() == "why "+x
		if ret != nil {
			m.errs[x] = ret
		}
	}
	m.log(hx.Ev{"op": "rec", "rs": []hx.Ev{e}, "same": same && sameMap(before, kvs) && sameMap(jobBefore, m.jkv[o.S("job")])})
}

// deepPanic panics n calls further down.
func deepPanic(n int, what string) {
	if n == 0 {
		panic(what)
	}
	deepPanic(n-1, what)
}

func (m *mixRun) runJob(o hx.Op) {
	name := o.S("job")
	e := m.base("complete", name, m.union("", nil))
	rs := []hx.Ev{}
	want := ""
	start := time.Now()
	f := func() error {
		time.Sleep(time.Duration(o.I("v")*int(m.ms)) * time.Millisecond)
		switch o.S("out") {
		case "error":
			want = "went wrong"
			return errors.New(want)
		case "panic":
			want = "oh no"
			deepPanic(m.rng.Intn(50), want)
		}
		return nil
	}
	ret := m.stream.Run(name, f)
	got := ""
	if ret != nil {
		got = ret.Error()
	}
	e["t"] = hx.Civil(time.Now())
	e["v"] = int64(time.Since(start)) / (m.ms * 1e6)
	e["st"] = map[string]string{"ok": "success", "error": "error", "panic": "panic"}[o.S("out")]
	if o.S("out") == "panic" {
		u := m.union("", nil)
		m.mu.Lock()
		u["stack"] = m.stack
		m.mu.Unlock()
		p := m.base("err", name, u)
		p["ev"], p["err"], p["due"], p["t"] = "panic", want, true, e["t"]
		rs = append(rs, p)
	}
	m.log(hx.Ev{"op": "rec", "rs": append(rs, e), "same": want == got})
}

func (m *mixRun) step(o hx.Op) {
	switch o.S("op") {
	case "attach":
		m.attach(o.S("kind"))
	case "newjob":
		delete(m.jobs, o.S("job"))
		m.job(o.S("job"))
	case "skv":
		m.stream.KeyValue(o.S("key"), o.S("val"))
		m.skv[o.S("key")] = o.S("val")
	case "jkv":
		j, _ := m.job(o.S("job"))
		if o.S("job") != "stream" {
			j.KeyValue(o.S("key"), o.S("val"))
			m.jkv[o.S("job")][o.S("key")] = o.S("val")
		}
	case "mapset":
		m.maps[o.S("m")][o.S("key")] = o.S("val")
	case "rec":
		m.rec(o)
	case "run":
		m.runJob(o)
	case "adv":
		time.Sleep(time.Duration(o.I("dt")*int(m.ms)) * time.Millisecond)
	case "out":
		m.mu.Lock()
		m.modes[o.S("kind")] = o.S("mode")
		m.mu.Unlock()
	case "poll":
		for _, s := range m.sinks {
			if s.poll != nil {
				s.poll.GetMetrics()
			}
		}
	}
}

// told is everything a sink has told.
func (m *mixRun) told(s *mixSink) (e hx.Ev, lost bool) {
	e = hx.Ev{}
	switch s.kind {
	case "app":
		e["seen"] = s.seen
		if s.seen == nil {
			e["seen"] = []hx.Ev{}
		}
	case "text", "json":
		ws := []hx.Ev{}
		for _, w := range s.w {
			if s.kind == "text" {
				ws = append(ws, hx.Ev{"raw": hx.Lat(m.hide(w))})
				continue
			}
			x := hx.DecodeWrite(w)
			kvs, _ := x["kvs"].([][]string)
			for i := range kvs {
				kvs[i][1] = m.hide(kvs[i][1])
			}
			delete(x, "raw")
			ws = append(ws, x)
		}
		e["ws"] = ws
	case "statsd":
		s.statsd.Drain()
		ls := []string{}
		whole := true
		for _, d := range s.udp.Recv() {
			whole = whole && len(d) <= 1440 && strings.HasSuffix(d, "\n")
			ls = append(ls, strings.Split(strings.TrimSuffix(d, "\n"), "\n")...)
		}
		e["ls"], e["whole"] = ls, whole
		lost = s.udp.Dropped()
	case "poll":
		p := &hx.Proj{VU: m.ms * 1e6, T: func(t time.Time) int64 { return 0 }}
		e["aggs"] = p.Aggs(s.poll.GetMetrics())
	case "librato", "bugsnag":
		ps := s.posts
		if ps == nil {
			ps = []hx.Ev{}
		}
		for _, x := range ps {
			if kvs, ok := x["kvs"].([][]string); ok {
				for i := range kvs {
					kvs[i][1] = m.hide(kvs[i][1])
				}
			}
		}
		e["posts"] = ps
	}
	return e, lost
}

// Mix drives one application, or two at the same time (they share nothing).
func Mix(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	hs := &mixHandlers{m: map[string]func(req *http.Request, body []byte) (*http.Response, error){}}
	hx.InstallTransport().Set(hs.handle)
	ms := []int64{1, 1, 3, 50, 100}[rng.Intn(5)]
	n := 1
	if sc.Cfg.B("par") {
		n = 2
	}
	r.SetCfg(hx.Ev{"ms": ms, "n": n, "micro": hx.Lat("μs")})
	runs := []*mixRun{}
	for i := 1; i <= n; i++ {
		m := &mixRun{run: i, id: sc.ID, rng: rand.New(rand.NewSource(rng.Int63())), ms: ms, stream: health.NewStream(), jobs: map[string]*health.Job{}, starts: map[string]time.Time{"stream": time.Now()}, skv: map[string]string{}, jkv: map[string]map[string]string{},
			maps: map[string]map[string]string{"m1": {"a": "1"}, "m2": {}}, errs: map[string]error{}, raws: map[string]error{}, modes: map[string]string{}, hands: hs}
		m.jkv["stream"] = map[string]string{}
		runs = append(runs, m)
	}
	done := make(chan bool, n)
	for _, m := range runs {
		m := m
		go func() {
			defer func() {
				if p := recover(); p != nil {
					m.log(hx.Ev{"op": "panicked", "what": clip(fmt.Sprint(p))})
				}
				done <- true
			}()
			m.attach("app")
			for k := m.rng.Intn(5); k > 0; k-- {
				m.attach(hx.Pick(m.rng, []string{"text", "json", "statsd", "dead", "poll", "librato", "bugsnag", "text", "statsd", "poll"}))
			}
			for _, o := range sc.Ops {
				m.step(o)
			}
			time.Sleep(time.Hour)
		}()
	}
	late := time.After(48 * time.Hour)
	for range runs {
		select {
		case <-done:
		case <-late:
			r.Log(hx.Ev{"op": "hang", "run": 1})
			return
		}
	}
	synctest.Wait()
	lost := false
	for _, m := range runs {
		outs := []hx.Ev{}
		for _, s := range m.sinks {
			s := s
			var e hx.Ev
			var l bool
			if !hx.Call(func() { e, l = m.told(s) }) {
				e = hx.Ev{"op": "hang"}
			}
			lost = lost || l
			outs = append(outs, e)
		}
		m.log(hx.Ev{"op": "end", "outs": outs})
	}
	for _, m := range runs {
		for _, s := range m.sinks {
			s := s
			switch {
			case s.statsd != nil:
				hx.Call(s.statsd.Stop)
			case s.lib != nil:
				hx.Call(s.lib.Stop)
			case s.bug != nil:
				hx.Call(s.bug.ShutdownServer)
			case s.poll != nil:
				hx.Call(s.poll.ShutdownServer)
			}
			if s.udp != nil && s.kind == "statsd" {
				s.udp.Close()
			}
		}
		if lost {
			continue // the kernel lost datagrams: nothing can be said
		}
		for _, e := range m.evs {
			r.Log(e)
		}
	}
}
