package core

import (
	"errors"
	"fmt"
	"math/rand"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"verif/hx"
)

// Merge drives the register machine of Merge.tla: real aggregations polled
// from real sinks, cloned, merged and modified.
func Merge(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	vu := durUnits[rng.Intn(len(durUnits))]
	jobs, evs := hx.NewJobs(rng, hx.ByteNames), hx.NewNames(rng, hx.ByteNames)
	gs := newGauges(rng, true)
	proj := &hx.Proj{VU: vu, T: func(t time.Time) int64 { return int64(t.Unix()/3600) % 1000000 }}
	r.SetCfg(hx.Ev{"note": fmt.Sprintf("unit=%d", vu)})
	src := map[int]*health.JsonPollingSink{1: health.NewJsonPollingSink(24*time.Hour, 24*time.Hour), 2: health.NewJsonPollingSink(24*time.Hour, 48*time.Hour)}
	regs := map[int]*health.IntervalAggregation{}
	for i := 1; i <= 3; i++ {
		regs[i] = health.NewIntervalAggregation(someTime(rng))
	}
	for _, o := range sc.Ops {
		e := hx.Ev{"op": o.S("op")}
		q, s := o.I("q"), o.I("s")
		reg := o.I("r")
		switch o.S("op") {
		case "emit":
			k := o.S("k")
			ev := ""
			if k != "complete" {
				ev = evs.Get(o.S("ev"))
			}
			job := jobs.Get(o.S("job"))
			e["s"], e["k"], e["job"], e["ev"], e["v"], e["g"], e["st"] = s, k, hx.Lat(job), hx.Lat(ev), o.I("v"), "", o.S("st")
			g := 0.0
			if k == "gauge" {
				g = gs.get(o.S("g"))
				e["g"] = hx.GaugeTok(g)
			}
			if !hx.Call(func() {
				emitTo(src[s], k, job, ev, int64(o.I("v"))*vu, g, statusByName[o.S("st")], errors.New(fmt.Sprint("e", rng.Intn(3))), nil)
			}) {
				r.Log(hx.Ev{"op": "hang"})
				return
			}
			synctest.Wait()
		case "take":
			var m []*health.IntervalAggregation
			if !hx.Call(func() { m = src[s].GetMetrics() }) || len(m) == 0 {
				r.Log(hx.Ev{"op": "hang"})
				return
			}
			regs[reg] = m[len(m)-1]
			e["r"], e["s"] = reg, s
		case "new":
			regs[reg] = health.NewIntervalAggregation(someTime(rng))
			e["r"] = reg
		case "clone":
			regs[reg] = regs[q].Clone()
			e["r"], e["q"] = reg, q
		case "merge":
			regs[reg].Merge(regs[q])
			e["r"], e["q"] = reg, q
		case "poke":
			poke(regs[reg], vu)
			e["r"] = reg
		}
		var obs []hx.Ev
		for i := 1; i <= 3; i++ {
			obs = append(obs, proj.Agg(regs[i]))
		}
		e["obs"] = obs
		r.Log(e)
	}
	hx.Call(src[1].ShutdownServer)
	hx.Call(src[2].ShutdownServer)
}

func pokeMaps(ev map[string]int64, er map[string]*health.ErrorCounter, ga map[string]float64, ti map[string]*health.TimerAggregation, vu int64) {
	for k := range ev {
		ev[k]++
	}
	for _, c := range er {
		c.Count++
	}
	for k := range ga {
		ga[k] = -77
	}
	for _, t := range ti {
		t.Count++
		t.NanosSum += vu
	}
}

func poke(ia *health.IntervalAggregation, vu int64) {
	pokeMaps(ia.Events, ia.EventErrs, ia.Gauges, ia.Timers, vu)
	for _, j := range ia.Jobs {
		pokeMaps(j.Events, j.EventErrs, j.Gauges, j.Timers, vu)
		j.Count++
		j.NanosSum += vu
		j.CountSuccess++
		j.CountValidationError++
		j.CountPanic++
		j.CountError++
		j.CountJunk++
	}
}

// someTime is about now: before, in or after the intervals of the sources.
func someTime(rng *rand.Rand) time.Time {
	return time.Now().Add(time.Duration(rng.Intn(7)-3) * 24 * time.Hour)
}
