package core

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"verif/hx"
)

var pollDs = []time.Duration{100 * time.Millisecond, 250 * time.Millisecond, time.Second, 2 * time.Second, 5 * time.Second,
	10 * time.Second, 30 * time.Second, time.Minute, time.Minute, 5 * time.Minute, time.Hour}

var durUnits = []int64{1, 1, 7, 1000, 1000000, 1500000, 1000000000, 60000000000, 1000000000000}

var gaugePool = []float64{0, 1, -1, 1.5, 0.1, 3.14159, -2.71828, 1e300, -1e300, 5e-324, 1e-7, 123456789.125, 1 << 60, 0.05, 100, math.Copysign(0, -1)}

var statusByName = map[string]health.CompletionStatus{
	"success": health.Success, "validation_error": health.ValidationError, "panic": health.Panic,
	"error": health.Error, "junk": health.Junk, "none": health.CompletionStatus(77),
}

// gauges concretises gauge ids to distinct finite values.
type gauges struct {
	rng *rand.Rand
	m   map[string]float64
	nan bool
}

func newGauges(rng *rand.Rand, special bool) *gauges {
	return &gauges{rng: rng, m: map[string]float64{}, nan: special}
}

func (g *gauges) get(id string) float64 {
	if v, ok := g.m[id]; ok {
		return v
	}
	for {
		v := gaugePool[g.rng.Intn(len(gaugePool))]
		if g.rng.Intn(3) == 0 {
			v = math.Round(g.rng.NormFloat64()*1e6) / 1000
		}
		if g.nan && g.rng.Intn(10) == 0 {
			v = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[g.rng.Intn(3)]
		}
		dup := false
		for _, o := range g.m {
			if hx.GaugeTok(o) == hx.GaugeTok(v) {
				dup = true
			}
		}
		if !dup {
			g.m[id] = v
			return v
		}
	}
}

var zones = []*time.Location{time.UTC, time.FixedZone("IST", 5*3600+1800), time.FixedZone("PST", -8*3600), time.FixedZone("NST", -3*3600-1800), time.FixedZone("NPT", 5*3600+2700)}

var ownIdent = health.Identifier

// slotTime maps the model's time (8 slots per interval) to real time: slot 0
// is the exact start of the interval, slot 7 its last nanosecond.
func slotTime(base time.Time, d time.Duration, slot int64) time.Time {
	cell, r := slot/8, slot%8
	t := base.Add(time.Duration(cell) * d)
	switch r {
	case 0:
		return t
	case 7:
		return t.Add(d - 1)
	}
	return t.Add(time.Duration(r) * d / 8)
}

func dayStart(t time.Time) time.Time { return t.UTC().Truncate(24 * time.Hour) }

// emitTo performs one recording on a sink.
func emitTo(s health.Sink, k, job, ev string, v int64, g float64, st health.CompletionStatus, err error, kvs map[string]string) {
	switch k {
	case "event":
		s.EmitEvent(job, ev, kvs)
	case "err":
		s.EmitEventErr(job, ev, err, kvs)
	case "timing":
		s.EmitTiming(job, ev, v, kvs)
	case "gauge":
		s.EmitGauge(job, ev, g, kvs)
	case "complete":
		s.EmitComplete(job, st, v, kvs)
	default:
		panic("harness: kind " + k)
	}
}

func Poll(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	httpMode := sc.Kind == "C09"
	time.Local = zones[rng.Intn(len(zones))]
	if httpMode && rng.Intn(2) == 0 {
		time.Local = time.UTC
	}
	d := pollDs[rng.Intn(len(pollDs))]
	retained := []int{1, 1, 2, 2, 3, 3, 4, 4, 5, 12}[rng.Intn(10)]
	wide := rng.Intn(50) == 0
	if wide { // a long window
		d, retained = []time.Duration{time.Second, 2 * time.Second, 10 * time.Second, time.Minute}[rng.Intn(4)], []int{60, 100, 128, 150}[rng.Intn(4)]
	}
	retain := time.Duration(retained)*d + []time.Duration{0, 0, d / 2, d - 1}[rng.Intn(4)]
	vu := durUnits[rng.Intn(len(durUnits))]
	pool := hx.ByteNames
	if httpMode {
		pool = hx.UTF8Names
	}
	jobs, evs := hx.NewJobs(rng, pool), hx.NewNames(rng, pool)
	if rng.Intn(12) == 0 {
		[]*hx.NameSet{jobs, evs}[rng.Intn(2)].Long()
	}
	gs := newGauges(rng, !httpMode)

	// start somewhere inside an interval
	base := dayStart(time.Now())
	for !base.After(time.Now()) {
		if left := time.Now().Sub(base); left > 3*d {
			base = base.Add(left / d * d)
		} else {
			base = base.Add(d)
		}
	}
	slot := int64(rng.Intn(8))
	time.Sleep(time.Until(slotTime(base, d, slot)))
	id := hx.Pick(rng, hx.UTF8Names)
	if httpMode {
		if rng.Intn(3) == 0 { // as it is by default: host and process
			host, _ := os.Hostname()
			id, health.Identifier = fmt.Sprintf("%s.%d", host, os.Getpid()), ownIdent
		} else {
			health.Identifier = id
		}
	}

	sink := health.NewJsonPollingSink(d, retain)
	proj := &hx.Proj{VU: vu, T: func(t time.Time) int64 {
		x := t.Sub(base)
		if x%d != 0 {
			return hx.Bad
		}
		return hx.Unit(int64(x/d)*8-slot0(slot), 1)
	}}
	r.SetCfg(hx.Ev{"d": 8, "r": retained, "slide": d >= time.Second, "off": -slot, "id": hx.Lat(id), "dur": fmt.Sprint(int64(d)),
		"note": fmt.Sprintf("interval=%v retain=%v unit=%d zone=%v", d, retain, vu, time.Local)})

	var snaps [][]*health.IntervalAggregation
	cur := slot
	lastV := 0
	hang := func(what string) { r.Log(hx.Ev{"op": "hang", "what": what}) }
	settle := func() { synctest.Wait() }
	// emit performs one recording.
	emit := func(o hx.Op) bool {
		k := o.S("k")
		e := hx.Ev{"op": "emit", "k": k, "job": "", "ev": "", "v": 0, "g": "", "st": ""}
		job := jobs.Get(o.S("job"))
		e["job"] = hx.Lat(job)
		ev := ""
		if k != "complete" {
			ev = evs.Get(o.S("ev"))
		}
		e["ev"] = hx.Lat(ev)
		iv := o.I("v")
		if k == "timing" || k == "complete" {
			if lastV != 0 && rng.Intn(12) == 0 { // as far from zero as before, on the other side
				iv = -lastV
			}
			lastV = iv
		}
		v := int64(iv) * vu
		e["v"] = iv
		g := 0.0
		if k == "gauge" {
			g = gs.get(o.S("g"))
			e["g"] = hx.GaugeTok(g)
		}
		st := statusByName[o.S("st")]
		e["st"] = o.S("st")
		var err error
		if k == "err" {
			switch rng.Intn(6) {
			case 4: // cannot be compared
				err = sliceErr{"slice", "x"}
			case 5: // cannot be asked
				err = []error{(*derefErr)(nil), boomErr{}}[rng.Intn(2)]
			case 0:
				err = errors.New("plain")
			case 1:
				err = health.Mute(errors.New("muted"))
			case 2:
				err = &health.UnmutedError{Err: fmt.Errorf("e%d", rng.Intn(3))}
			case 3:
				err = nil
			}
		}
		if !hx.Call(func() { emitTo(sink, k, job, ev, v, g, st, err, nil) }) {
			hang("emit")
			return false
		}
		settle()
		r.Log(e)
		return true
	}
	snap := func() bool {
		var m []*health.IntervalAggregation
		if !hx.Call(func() { m = sink.GetMetrics() }) {
			hang("poll")
			return false
		}
		snaps = append(snaps, m)
		r.Log(hx.Ev{"op": "snap", "obs": proj.Aggs(m)})
		return true
	}
	if rng.Intn(20) == 0 {
		// many names at once
		ks := []string{"event", "err", "timing", "gauge", "complete"}
		sts := []string{"success", "validation_error", "panic", "error", "junk"}
		nj, ne := 1+rng.Intn(40), 1+rng.Intn(40)
		for i := 0; i < 150; i++ {
			if !emit(hx.Op{"k": ks[rng.Intn(5)], "job": fmt.Sprint("J", rng.Intn(nj)), "ev": fmt.Sprint("E", rng.Intn(ne)), "v": float64(rng.Intn(1000)),
				"g": fmt.Sprint("g", 1+rng.Intn(3)), "st": sts[rng.Intn(5)]}) {
				return
			}
		}
	}
	advance := func(n int64) {
		cur += n
		time.Sleep(time.Until(slotTime(base, d, cur)))
		settle()
		r.Log(hx.Ev{"op": "adv", "n": n})
	}
	if wide {
		for i := 0; i < 6; i++ {
			if !emit(hx.Op{"k": "event", "job": fmt.Sprint("J", i%2), "ev": fmt.Sprint("E", i)}) {
				return
			}
			advance(int64(8 * (5 + rng.Intn(50))))
		}
	}
	for _, o := range sc.Ops {
		switch o.S("op") {
		case "emit":
			if !emit(o) {
				return
			}
			if !httpMode && rng.Intn(8) == 0 {
				// the very same once more
				if !snap() || !emit(o) || !snap() {
					return
				}
			}
		case "adv":
			n := int64(o.I("n"))
			if d > 10*time.Minute && n > 16 {
				n = 16
			}
			advance(n)
		case "snap":
			if !snap() {
				return
			}
		case "again":
			i := o.I("i")
			r.Log(hx.Ev{"op": "again", "i": i, "obs": proj.Aggs(snaps[i-1])})
		case "http":
			path := o.S("path")
			if path == "other" {
				path = []string{"/", "/healthz", "/health/", "/Health", "/health/jobs", "/xhealth", "", "//health", "/%20health"}[rng.Intn(9)]
			}
			e := hx.Ev{"op": "http", "path": path}
			rec := httptest.NewRecorder()
			url := "http://h" + path
			if path == "/health" {
				url += []string{"", "", "?x=1", "?"}[rng.Intn(4)]
			}
			meth := []string{"GET", "GET", "GET", "HEAD", "POST"}[rng.Intn(5)]
			if meth == "HEAD" && path == "/health" {
				meth = "GET"
			}
			req := httptest.NewRequest(meth, url, nil)
			if rng.Intn(3) == 0 { // whatever clients ask for
				for i := 0; i < 1+rng.Intn(2); i++ {
					h := [][2]string{{"If-None-Match", "*"}, {"If-None-Match", "\"1\""}, {"If-Modified-Since", time.Now().UTC().Format(http.TimeFormat)}, {"Accept-Encoding", "gzip, deflate"},
						{"Accept", "text/html"}, {"Range", "bytes=0-99"}, {"Cache-Control", "max-age=3600"}, {"User-Agent", "Go-http-client/1.1"}, {"Origin", "http://evil"}, {"Connection", "close"}}[rng.Intn(10)]
					req.Header.Set(h[0], h[1])
				}
			}
			if !hx.Call(func() { sink.ServeHTTP(rec, req) }) {
				hang("http")
				return
			}
			var m []*health.IntervalAggregation
			if !hx.Call(func() { m = sink.GetMetrics() }) {
				hang("poll")
				return
			}
			fillHTTP(e, rec, proj)
			e["direct"] = proj.Aggs(m)
			r.Log(e)
		}
	}
	if !httpMode && !snap() {
		return
	}
	hx.Call(sink.ShutdownServer)
}

func slot0(s int64) int64 { return s }

func fillHTTP(e hx.Ev, rec *httptest.ResponseRecorder, proj *hx.Proj) {
	res := rec.Result()
	body := new(bytes.Buffer)
	body.ReadFrom(res.Body)
	e["code"] = res.StatusCode
	var v interface{}
	dec := json.NewDecoder(strings.NewReader(body.String()))
	dec.UseNumber()
	err := dec.Decode(&v)
	wf := err == nil
	if wf {
		var rest interface{}
		wf = dec.Decode(&rest) == io.EOF
	}
	m, _ := v.(map[string]interface{})
	e["wellformed"] = wf && m != nil && strings.Contains(res.Header.Get("Content-Type"), "json")
	id, _ := m["instance_id"].(string)
	e["id"] = hx.Lat(id)
	dur := ""
	if n, ok := m["interval_duration"].(json.Number); ok {
		dur = n.String()
	}
	e["dur"] = dur
	e["obs"] = proj.JAggs(m["aggregations"])
	_, isErr := m["error"]
	e["iserror"] = isErr
	_, has := m["aggregations"]
	e["hasmetrics"] = has
}

var _ = http.MethodGet
