package core

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"verif/hx"
)

// slowWriter keeps what each Write call was given, copying it in two halves
// with a pause in between, so that a buffer reused too early shows.
type slowWriter struct {
	mu     sync.Mutex
	writes []string
	yield  int
	fail   *rand.Rand // some writes fail, or are cut short
}

func (w *slowWriter) Write(p []byte) (int, error) {
	h := len(p) / 2
	a := string(p[:h])
	for i := 0; i < w.yield; i++ {
		runtime.Gosched()
	}
	a += string(p[h:])
	w.mu.Lock()
	defer w.mu.Unlock()
	w.writes = append(w.writes, a)
	if w.fail != nil {
		switch w.fail.Intn(6) {
		case 0:
			return 0, errors.New("write failed")
		case 1:
			return h, io.ErrShortWrite
		}
	}
	return len(p), nil
}

func (w *slowWriter) take() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	out := w.writes
	w.writes = nil
	return out
}

var writerGauges = []string{"0", "0.5", "-0.5", "3.25", "-7", "100", "123456", "1e+06", "1.234567e+06", "1.23456789e+08", "1e+21", "1e-05", "0.0001", "0.1", "1.5e+300", "5e-324", "0.30000000000000004", "1.7976931348623157e+308", "-1e-10", "42"}

func writerGauge(rng *rand.Rand, jsn bool) (float64, string) {
	if !jsn && rng.Intn(8) == 0 {
		return []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[rng.Intn(3)], ""
	}
	s := writerGauges[rng.Intn(len(writerGauges))]
	g, _ := strconv.ParseFloat(s, 64)
	return g, s
}

func writerDur(rng *rand.Rand) int64 {
	switch rng.Intn(8) {
	case 0:
		return 2000000 + int64(rng.Intn(5)) - 2
	case 1:
		return 2000 + int64(rng.Intn(5)) - 2
	case 2:
		return int64(rng.Intn(3000))
	case 3:
		return int64(rng.Intn(3000000))
	case 4:
		return []int64{0, 1, 999, 1000, 1999999, 2999999, 3000000, math.MaxInt64, math.MinInt64 + 1, -1, -2001, -2000001}[rng.Intn(12)]
	default:
		return randDur(rng)
	}
}

func durEv(n int64) hx.Ev {
	e := sdDur{n}.ev()
	e["s"] = strconv.FormatInt(n, 10)
	return e
}

type emission struct {
	k, job, ev string
	v          int64
	g          float64
	st         string
	err        error
	kvs        map[string]string
}

func (m *emission) do(s health.Sink) {
	emitTo(s, m.k, m.job, m.ev, m.v, m.g, statusByName[m.st], m.err, m.kvs)
}

func (m *emission) event(rng *rand.Rand, gtok string) hx.Ev {
	kvs := []hx.Ev{}
	for k, v := range m.kvs {
		b := []int{}
		for i := 0; i < len(k); i++ {
			b = append(b, int(k[i]))
		}
		kvs = append(kvs, hx.Ev{"k": hx.Lat(k), "v": hx.Lat(v), "b": b})
	}
	e := hx.Ev{"k": m.k, "job": hx.Lat(m.job), "kvs": kvs, "t": hx.Civil(time.Now())}
	if m.k != "complete" {
		e["ev"] = hx.Lat(m.ev)
	} else {
		e["st"] = m.st
	}
	switch m.k {
	case "err":
		e["err"] = hx.Lat(m.err.Error())
	case "timing", "complete":
		e["v"] = durEv(m.v)
	case "gauge":
		e["g"] = gtok
	}
	return e
}

// Writer drives the text (C13) or JSON (C14) writer sink.
func Writer(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	jsn := sc.Kind == "C14"
	time.Local = zones[rng.Intn(len(zones))]
	pool := hx.ByteNames
	if jsn {
		pool = hx.UTF8Names
	}
	w := &slowWriter{yield: rng.Intn(3) * 20}
	if rng.Intn(5) == 0 {
		w.fail = rand.New(rand.NewSource(rng.Int63()))
	}
	var sink health.Sink
	if jsn {
		sink = &health.JsonWriterSink{Writer: w}
	} else {
		sink = &health.WriterSink{Writer: w}
	}
	r.SetCfg(hx.Ev{"json": jsn, "micro": hx.Lat("μs")})
	jobs, evs, keys, vals, errs := hx.NewJobs(rng, pool), hx.NewNames(rng, pool), hx.NewNames(rng, pool), hx.NewNames(rng, pool), hx.NewNames(rng, pool)
	mkErr := func(id string) error {
		e := errors.New(errs.Get(id))
		switch rng.Intn(3) {
		case 0:
			return health.Mute(e)
		case 1:
			return &health.UnmutedError{Err: e}
		}
		return e
	}
	gtok := func(g float64, s string) string {
		if s == "" {
			s = strconv.FormatFloat(g, 'g', -1, 64)
		}
		return s
	}
	ws := func() []hx.Ev {
		out := []hx.Ev{}
		for _, s := range w.take() {
			if jsn {
				out = append(out, hx.DecodeWrite(s))
			} else {
				out = append(out, hx.Ev{"raw": hx.Lat(s)})
			}
		}
		return out
	}
	for _, o := range sc.Ops {
		switch o.S("op") {
		case "adv":
			d := []time.Duration{1, time.Duration(rng.Intn(1000)), time.Duration(rng.Int63n(int64(time.Second))), time.Hour * time.Duration(rng.Intn(10000)),
				time.Duration(rng.Int63n(int64(100 * 24 * time.Hour)))}[rng.Intn(5)]
			if rng.Intn(3) == 0 { // land on round instants
				n := time.Now()
				u := []time.Duration{time.Second, time.Millisecond, time.Microsecond, 100 * time.Millisecond}[rng.Intn(4)]
				d = n.Truncate(u).Add(u).Sub(n)
			}
			time.Sleep(d)
			continue
		case "emit":
			m := &emission{k: o.S("k"), job: jobs.Get(o.S("job")), st: o.S("st")}
			if m.k != "complete" {
				m.ev = evs.Get(o.S("ev"))
			}
			var tok string
			switch m.k {
			case "err":
				m.err = mkErr(o.S("err"))
			case "timing", "complete":
				m.v = writerDur(rng)
			case "gauge":
				var s string
				m.g, s = writerGauge(rng, jsn)
				tok = gtok(m.g, s)
			}
			kv, _ := o["kv"].([]interface{})
			many := 0
			if rng.Intn(60) == 0 {
				many = rng.Intn(120)
			}
			if len(kv) > 0 || !o.B("nilkv") || many > 0 {
				m.kvs = map[string]string{}
			}
			for _, p := range kv {
				pp := p.([]interface{})
				v := vals.Get(pp[1].(string))
				if rng.Intn(25) == 0 {
					v = strings.Repeat(v+"x", 1+rng.Intn(5000)/(len(v)+1)*(1+rng.Intn(3)))
				}
				m.kvs[keys.Get(pp[0].(string))] = v
			}
			for i := 0; i < many; i++ {
				m.kvs[keys.Get(fmt.Sprint("many", i))] = fmt.Sprint(i)
			}
			if m.k != "complete" && rng.Intn(60) == 0 {
				m.ev = strings.Repeat("long ", rng.Intn(2000))
			}
			if rng.Intn(60) == 0 {
				m.job = strings.Repeat("job_", rng.Intn(2000))
			}
			if m.k == "err" && rng.Intn(20) == 0 {
				m.err = errors.New(strings.Repeat("why? ", rng.Intn(14000)))
			}
			e := m.event(rng, tok)
			if !hx.Call(func() { m.do(sink) }) {
				r.Log(hx.Ev{"op": "hang"})
				return
			}
			r.Log(hx.Ev{"op": "emit", "e": e, "ws": ws()})
		case "storm":
			n := o.I("n")
			var es []hx.Ev
			start := make(chan struct{})
			for i := 0; i < n; i++ {
				m := &emission{k: []string{"event", "err", "timing", "gauge", "complete"}[rng.Intn(5)], job: fmt.Sprintf("job%d%s", i, strings.Repeat("x", rng.Intn(60))), ev: fmt.Sprintf("ev%d", i), st: "panic",
					err: mkErr("x1"), v: writerDur(rng), kvs: map[string]string{fmt.Sprint("k", i): fmt.Sprint("v", i), "b": "z"}}
				var s string
				m.g, s = writerGauge(rng, jsn)
				es = append(es, m.event(rng, gtok(m.g, s)))
				go func() {
					<-start
					m.do(sink)
				}()
			}
			synctest.Wait()
			close(start)
			synctest.Wait()
			r.Log(hx.Ev{"op": "storm", "es": es, "ws": ws()})
		}
	}
}
