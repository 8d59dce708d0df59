package hx

import (
	"encoding/json"
	"math"
	"strconv"
	"time"

	"github.com/gocraft/health"
)

// Bad stands for a number that cannot be what the specification expects.
const Bad = -2000000001

// Unit converts v to a multiple of unit, or Bad.
func Unit(v, unit int64) int64 {
	if unit == 0 || v%unit != 0 {
		return Bad
	}
	q := v / unit
	if q > 2000000000 || q < -2000000000 {
		return Bad
	}
	return q
}

// UnitF is Unit for floating point numbers, exact up to rounding errors.
func UnitF(v, unit float64) int64 {
	q := v / unit
	r := math.Round(q)
	if math.IsNaN(q) || math.Abs(r) > 2e9 || math.Abs(q-r) > 1e-9*math.Max(1, math.Abs(r)) {
		return Bad
	}
	return int64(r)
}

func GaugeTok(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }

type Proj struct {
	VU int64                   // unit of durations
	T  func(t time.Time) int64 // start of interval -> model time
}

func cnt(v int64) int64 { return Unit(v, 1) }

func (p *Proj) timer(t *health.TimerAggregation) Ev {
	if t == nil {
		return Ev{"c": Bad, "s": Bad, "q": Bad, "mn": Bad, "mx": Bad}
	}
	return p.timerVals(t.Count, t.NanosSum, t.NanosSumSquares, t.NanosMin, t.NanosMax)
}

func (p *Proj) timerVals(c, s int64, q float64, mn, mx int64) Ev {
	return Ev{"c": cnt(c), "s": Unit(s, p.VU), "q": UnitF(q, float64(p.VU)*float64(p.VU)), "mn": Unit(mn, p.VU), "mx": Unit(mx, p.VU)}
}

func (p *Proj) maps(out Ev, ev map[string]int64, er map[string]*health.ErrorCounter, ga map[string]float64, ti map[string]*health.TimerAggregation) {
	e1, e2, e3, e4 := Ev{}, Ev{}, Ev{}, Ev{}
	for k, v := range ev {
		e1[Lat(k)] = cnt(v)
	}
	for k, v := range er {
		if v == nil {
			e2[Lat(k)] = Bad
		} else {
			e2[Lat(k)] = cnt(v.Count)
		}
	}
	for k, v := range ga {
		e3[Lat(k)] = GaugeTok(v)
	}
	for k, v := range ti {
		e4[Lat(k)] = p.timer(v)
	}
	out["ev"], out["er"], out["ga"], out["ti"] = e1, e2, e3, e4
}

// Agg projects one interval aggregation.
func (p *Proj) Agg(ia *health.IntervalAggregation) Ev {
	out := Ev{"start": p.T(ia.IntervalStart), "serial": cnt(ia.SerialNumber)}
	p.maps(out, ia.Events, ia.EventErrs, ia.Gauges, ia.Timers)
	jobs := Ev{}
	for k, j := range ia.Jobs {
		if j == nil {
			jobs[Lat(k)] = Ev{"ev": Ev{}, "er": Ev{}, "ga": Ev{}, "ti": Ev{}, "tm": p.timer(nil), "st": p.st(Bad, Bad, Bad, Bad, Bad)}
			continue
		}
		o := Ev{}
		p.maps(o, j.Events, j.EventErrs, j.Gauges, j.Timers)
		o["tm"] = p.timer(&j.TimerAggregation)
		o["st"] = p.st(j.CountSuccess, j.CountValidationError, j.CountPanic, j.CountError, j.CountJunk)
		jobs[Lat(k)] = o
	}
	out["jobs"] = jobs
	return out
}

func (p *Proj) st(a, b, c, d, e int64) Ev {
	return Ev{"success": cnt(a), "validation_error": cnt(b), "panic": cnt(c), "error": cnt(d), "junk": cnt(e)}
}

func (p *Proj) Aggs(ias []*health.IntervalAggregation) []Ev {
	out := make([]Ev, 0, len(ias))
	for _, ia := range ias {
		if ia == nil {
			out = append(out, Ev{"start": Bad, "serial": Bad, "ev": Ev{}, "er": Ev{}, "ga": Ev{}, "ti": Ev{}, "jobs": Ev{}})
			continue
		}
		out = append(out, p.Agg(ia))
	}
	return out
}

// --- the same projection from generically decoded JSON ---------------------

func jInt(v interface{}) (int64, bool) {
	n, ok := v.(json.Number)
	if !ok {
		return Bad, false
	}
	i, err := strconv.ParseInt(string(n), 10, 64)
	if err != nil {
		return Bad, false
	}
	return i, true
}

func jCnt(v interface{}) int64 {
	i, ok := jInt(v)
	if !ok {
		return Bad
	}
	return cnt(i)
}

func jFloat(v interface{}) (float64, bool) {
	n, ok := v.(json.Number)
	if !ok {
		return 0, false
	}
	f, err := strconv.ParseFloat(string(n), 64)
	return f, err == nil
}

func jObj(v interface{}) map[string]interface{} {
	m, _ := v.(map[string]interface{})
	return m
}

func (p *Proj) jUnit(v interface{}) int64 {
	i, ok := jInt(v)
	if !ok {
		return Bad
	}
	return Unit(i, p.VU)
}

// JTimer projects the five timer fields of a JSON object.
func (p *Proj) JTimer(m map[string]interface{}) Ev {
	q := int64(Bad)
	if f, ok := jFloat(m["nanos_sum_squares"]); ok {
		q = UnitF(f, float64(p.VU)*float64(p.VU))
	}
	return Ev{"c": jCnt(m["count"]), "s": p.jUnit(m["nanos_sum"]), "q": q, "mn": p.jUnit(m["nanos_min"]), "mx": p.jUnit(m["nanos_max"])}
}

func (p *Proj) jMaps(out Ev, m map[string]interface{}) {
	e1, e2, e3, e4 := Ev{}, Ev{}, Ev{}, Ev{}
	for k, v := range jObj(m["events"]) {
		e1[Lat(k)] = jCnt(v)
	}
	for k, v := range jObj(m["event_errs"]) {
		e2[Lat(k)] = jCnt(jObj(v)["count"])
	}
	for k, v := range jObj(m["gauges"]) {
		f, ok := jFloat(v)
		if ok {
			e3[Lat(k)] = GaugeTok(f)
		} else {
			e3[Lat(k)] = "bad"
		}
	}
	for k, v := range jObj(m["timers"]) {
		e4[Lat(k)] = p.JTimer(jObj(v))
	}
	out["ev"], out["er"], out["ga"], out["ti"] = e1, e2, e3, e4
}

func (p *Proj) JSt(m map[string]interface{}) Ev {
	return Ev{"success": jCnt(m["count_success"]), "validation_error": jCnt(m["count_validation_error"]), "panic": jCnt(m["count_panic"]),
		"error": jCnt(m["count_error"]), "junk": jCnt(m["count_junk"])}
}

// JAgg projects a JSON-encoded interval aggregation.
func (p *Proj) JAgg(v interface{}) Ev {
	m := jObj(v)
	start := int64(Bad)
	if s, ok := m["interval_start"].(string); ok {
		if t, err := time.Parse(time.RFC3339Nano, s); err == nil {
			start = p.T(t)
		}
	}
	out := Ev{"start": start, "serial": jCnt(m["serial_number"])}
	p.jMaps(out, m)
	jobs := Ev{}
	for k, jv := range jObj(m["jobs"]) {
		jm := jObj(jv)
		o := Ev{}
		p.jMaps(o, jm)
		o["tm"] = p.JTimer(jm)
		o["st"] = p.JSt(jm)
		jobs[Lat(k)] = o
	}
	out["jobs"] = jobs
	return out
}

func (p *Proj) JAggs(v interface{}) []Ev {
	l, _ := v.([]interface{})
	out := make([]Ev, 0, len(l))
	for _, x := range l {
		out = append(out, p.JAgg(x))
	}
	return out
}
