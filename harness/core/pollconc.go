package core

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"verif/hx"
)

const nProd = 3

// laggard is an error whose text takes a while to be had, now and then: the
// sink falls behind, and the queue fills up.
type laggard struct {
	text string
	left *int64
	d    time.Duration
}

func (e *laggard) Error() string {
	if e.d > 0 && atomic.AddInt64(e.left, -1) >= 0 {
		time.Sleep(e.d)
	}
	return e.text
}

// emitNth makes the k-th recording of producer p (see PollConc.tla).
func emitNth(sink *health.JsonPollingSink, p, k int, lag *int64, d time.Duration) {
	job, own := fmt.Sprint("p", p), fmt.Sprint("o", p)
	switch k % 10 {
	case 1:
		sink.EmitEvent(job, "s", nil)
	case 2:
		sink.EmitEventErr(job, "s", &laggard{own, lag, d}, nil)
	case 3:
		sink.EmitTiming(job, "s", int64(p+1), nil)
	case 4:
		sink.EmitGauge(job, "s", float64(k), nil)
	case 5:
		sink.EmitComplete(job, health.Success, int64(p+1), nil)
	case 6:
		sink.EmitEvent(job, own, nil)
	case 7:
		sink.EmitEventErr(job, own, errors.New("x"), nil)
	case 8:
		sink.EmitTiming(job, own, 2, nil)
	case 9:
		sink.EmitGauge(job, own, float64(k), nil)
	case 0:
		sink.EmitComplete(job, health.Panic, 3, nil)
	}
}

// vec is what one aggregation says about the names "s" and own.
type vec map[string]int64

func addMaps(v vec, suffix, name string, ev map[string]int64, er map[string]*health.ErrorCounter, ga map[string]float64, ti map[string]*health.TimerAggregation) {
	v["e"+suffix] += ev[name]
	if c := er[name]; c != nil {
		v["x"+suffix] += c.Count
	}
	if g, ok := ga[name]; ok {
		v["g"+suffix] = int64(g)
	}
	if t := ti[name]; t != nil {
		v["t"+suffix] += t.Count
		v["u"+suffix] += t.NanosSum
		v["q"+suffix] += int64(t.NanosSumSquares)
		if t.Count > 0 && t.NanosMin < v["n"+suffix] || v["n"+suffix] == 0 {
			v["n"+suffix] = t.NanosMin
		}
		if t.NanosMax > v["m"+suffix] {
			v["m"+suffix] = t.NanosMax
		}
	}
}

func newVec() vec {
	v := vec{}
	for _, s := range []string{"s", "o"} {
		for _, k := range []string{"e", "x", "g", "t", "u", "q", "n", "m"} {
			v[k+s] = 0
		}
	}
	return v
}

// cut projects the intervals of a poll.
func cut(ias []*health.IntervalAggregation) hx.Ev {
	var jobs, tot []vec
	serial, extra := int64(0), 0
	for p := 1; p <= nProd; p++ {
		job, own := fmt.Sprint("p", p), fmt.Sprint("o", p)
		v, o := newVec(), newVec()
		v["ok"], v["pan"], v["cc"], v["cu"] = 0, 0, 0, 0
		for _, ia := range ias {
			addMaps(o, "o", own, ia.Events, ia.EventErrs, ia.Gauges, ia.Timers)
			addMaps(o, "s", "s", ia.Events, ia.EventErrs, ia.Gauges, ia.Timers)
			j := ia.Jobs[job]
			if j == nil {
				continue
			}
			addMaps(v, "o", own, j.Events, j.EventErrs, j.Gauges, j.Timers)
			addMaps(v, "s", "s", j.Events, j.EventErrs, j.Gauges, j.Timers)
			v["ok"] += j.CountSuccess
			v["pan"] += j.CountPanic
			v["cc"] += j.Count
			v["cu"] += j.NanosSum
			extra += int(j.CountError + j.CountJunk + j.CountValidationError)
		}
		jobs, tot = append(jobs, v), append(tot, o)
	}
	known := map[string]bool{"s": true, "o1": true, "o2": true, "o3": true}
	count := func(name string, extra *int) {
		if !known[name] {
			*extra++
		}
	}
	for _, ia := range ias {
		serial += ia.SerialNumber
		for n := range ia.Events {
			count(n, &extra)
		}
		for n := range ia.EventErrs {
			count(n, &extra)
		}
		for n := range ia.Timers {
			count(n, &extra)
		}
		for n := range ia.Gauges {
			count(n, &extra)
		}
		for n := range ia.Jobs {
			if n != "p1" && n != "p2" && n != "p3" {
				extra++
			}
		}
	}
	return hx.Ev{"jobs": jobs, "tot": tot, "serial": serial, "extra": extra}
}

// PollConc drives one polling sink from several goroutines at once.
func PollConc(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{1, 2, 8, 8}[rng.Intn(4)]))
	interval := []time.Duration{time.Hour, time.Minute, time.Second}[rng.Intn(3)]
	sink := health.NewJsonPollingSink(interval, 1000*interval)
	r.SetCfg(hx.Ev{"n": nProd})
	var done [nProd + 1]int64
	var begun [nProd + 1]int
	var hmu sync.Mutex
	type heldT struct {
		i   int
		ias []*health.IntervalAggregation
	}
	var held []heldT
	var nheld int64
	poll := func(viaHTTP bool, op string) {
		var ias []*health.IntervalAggregation
		if viaHTTP {
			rw := httptest.NewRecorder()
			req, _ := http.NewRequest("GET", "/health", nil)
			sink.ServeHTTP(rw, req)
			var resp health.HealthAggregationsResponse
			if err := json.Unmarshal(rw.Body.Bytes(), &resp); err != nil {
				r.Log(hx.Ev{"op": "badjson"})
				return
			}
			ias = resp.IntervalAggregations
		} else {
			ias = sink.GetMetrics()
		}
		i := int(atomic.AddInt64(&nheld, 1))
		e := hx.Ev{"op": op, "i": i, "cut": cut(ias)}
		if op == "final" {
			e["begun"] = []int{begun[1], begun[2], begun[3]}
		}
		r.Log(e)
		if !viaHTTP {
			hmu.Lock()
			held = append(held, heldT{i, ias})
			hmu.Unlock()
		}
	}
	again := func(h heldT) { r.Log(hx.Ev{"op": "again", "i": h.i, "cut": cut(h.ias)}) }
	var lag int64
	for _, o := range sc.Ops {
		ns, _ := o["n"].([]interface{})
		var wg sync.WaitGroup
		lags := rng.Intn(2) == 0
		atomic.StoreInt64(&lag, 0) // errors of earlier rounds do not lag any more
		if lags {
			atomic.StoreInt64(&lag, int64(10+rng.Intn(30)))
		}
		for p := 1; p <= nProd; p++ {
			p := p
			f, _ := ns[p-1].(float64)
			n, from := int(f), begun[p]
			begun[p] += n
			step := n/12 + 1
			prng := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := from + 1; k <= from+n; k++ {
					if k == from+1 || prng.Intn(step) == 0 {
						v := []int64{}
						for q := 1; q <= nProd; q++ {
							v = append(v, atomic.LoadInt64(&done[q]))
						}
						r.Log(hx.Ev{"op": "mark", "p": p, "k": k, "v": v})
						if o.B("sleep") {
							time.Sleep(time.Duration(prng.Intn(1500)) * time.Millisecond)
						} else if prng.Intn(3) == 0 {
							runtime.Gosched()
						}
					}
					d := time.Duration(0)
					if lags && prng.Intn(20) == 0 {
						d = time.Duration(1+prng.Intn(20)) * time.Millisecond
					}
					emitNth(sink, p, k, &lag, d)
					atomic.AddInt64(&done[p], 1)
				}
			}()
		}
		polls := o.I("polls")
		if sc.Kind == "C09" { // it is about requests, which come at the same time, too
			polls += 2
		}
		for m := 0; m < polls; m++ {
			m := m
			prng := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 3; i++ {
					poll(sc.Kind == "C09" || o.B("http") && (m == 0 || prng.Intn(2) == 0), "poll")
					if o.B("sleep") {
						time.Sleep(time.Duration(prng.Intn(3000)) * time.Millisecond)
					} else {
						for j := prng.Intn(20); j > 0; j-- {
							runtime.Gosched()
						}
					}
					hmu.Lock()
					var h heldT
					if len(held) > 0 {
						h = held[prng.Intn(len(held))]
					}
					hmu.Unlock()
					if h.i > 0 {
						again(h)
					}
				}
			}()
		}
		fin := make(chan bool)
		go func() { wg.Wait(); close(fin) }()
		if o.B("sleep") {
			hx.Call(func() { <-fin })
		}
		select {
		case <-fin:
		case <-time.After(time.Hour):
			r.Log(hx.Ev{"op": "hang"})
			return
		}
		synctest.Wait()
		if lags { // it has caught up by then
			time.Sleep(time.Second)
			synctest.Wait()
		}
		poll(false, "final")
	}
	for _, h := range held {
		again(h)
	}
	hx.Call(sink.ShutdownServer)
}
