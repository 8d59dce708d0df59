package ext

import (
	"math"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"testing/synctest"
	"time"

	"github.com/gocraft/health/runtime_metrics"
	"verif/hx"
)

// receiver is the stream the reporter is given. For every gauge it measures
// the process's actual figure itself, at that moment.
type receiver struct {
	mu    sync.Mutex
	start time.Time
	unit  time.Duration
	got   []hx.Ev
	other int

	// a slow stream: it is busy for that long once it has got a periodic report's n gauges
	slow  time.Duration
	n, cn int
	busy  bool
	asked bool // the report is one asked for
}

func (r *receiver) bad() {
	r.mu.Lock()
	r.other++
	r.mu.Unlock()
}
func (r *receiver) Event(string)                                              { r.bad() }
func (r *receiver) EventKv(string, map[string]string)                         { r.bad() }
func (r *receiver) EventErr(_ string, err error) error                        { r.bad(); return err }
func (r *receiver) EventErrKv(_ string, err error, _ map[string]string) error { r.bad(); return err }
func (r *receiver) Timing(string, int64)                                      { r.bad() }
func (r *receiver) TimingKv(string, int64, map[string]string)                 { r.bad() }
func (r *receiver) GaugeKv(name string, value float64, kvs map[string]string) { r.Gauge(name, value) }
func (r *receiver) Gauge(name string, value float64) {
	lo, hi, unit := actual(name)
	fl := func(x float64) int64 {
		x = math.Floor(x / unit)
		if math.IsNaN(x) || math.Abs(x) > 2e9 {
			return hx.Bad
		}
		return int64(x)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	defer func() {
		if r.cn++; r.slow > 0 && r.n > 0 && r.cn%r.n == 0 && !r.asked {
			r.busy = true
			r.mu.Unlock()
			time.Sleep(r.slow)
			r.mu.Lock()
			r.busy = false
		}
	}()
	at := time.Since(r.start)
	t := int64(hx.Bad)
	if at%r.unit == 0 {
		t = int64(at / r.unit)
	}
	r.got = append(r.got, hx.Ev{"name": name, "v": fl(value), "lo": fl(lo), "hi": fl(hi), "at": t})
}

func (r *receiver) take(e hx.Ev) hx.Ev {
	r.mu.Lock()
	defer r.mu.Unlock()
	e["gs"] = r.got
	if r.got == nil {
		e["gs"] = []hx.Ev{}
	}
	e["other"] = r.other
	r.got = nil
	return e
}

// actual measures what a metric has to be now: bounds and the unit to compare in.
func actual(name string) (lo, hi, unit float64) {
	switch name {
	case "alloc", "heap_objects", "pause_total_ns", "num_gc", "next_gc", "gc_cpu_fraction":
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		exact := func(v, unit float64) (float64, float64, float64) { return v, v, unit }
		switch name {
		case "alloc": // nothing frees memory between the two readings
			return float64(m.Alloc) - (4 << 20), float64(m.Alloc) + 1024, 1024
		case "heap_objects":
			return float64(m.HeapObjects) - 50000, float64(m.HeapObjects) + 10, 1
		case "pause_total_ns":
			return exact(float64(m.PauseTotalNs), 1000)
		case "num_gc":
			return exact(float64(m.NumGC), 1)
		case "next_gc":
			return exact(float64(m.NextGC), 1024*1024)
		default:
			return exact(m.GCCPUFraction, 1e-9)
		}
	case "gc_pause_quantile_50", "gc_pause_quantile_max":
		gc := debug.GCStats{PauseQuantiles: make([]time.Duration, 3)}
		debug.ReadGCStats(&gc)
		q := gc.PauseQuantiles[2]
		if name == "gc_pause_quantile_50" {
			q = gc.PauseQuantiles[1]
		}
		ms := float64(q) / 1e6
		return ms - 0.002, ms + 0.002, 0.001
	case "num_goroutines":
		n := float64(runtime.NumGoroutine())
		return n - 2, n + 2, 1
	case "num_cgo_call":
		n := float64(runtime.NumCgoCall())
		return n - 5, n, 1
	case "num_fds_used":
		d, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			panic("harness: " + err.Error())
		}
		return float64(len(d)) - 2, float64(len(d)) + 2, 1
	}
	return 0, 0, 1
}

var ballast [][]byte
var objs []*[16]byte

// Runtime drives one runtime metrics reporter.
func Runtime(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	debug.SetGCPercent(20000) // only collections the scenario asks for
	base := hx.HealthGoroutines()
	unit := []time.Duration{time.Millisecond, time.Second, 20 * time.Millisecond, time.Minute}[rng.Intn(4)]
	rcv := &receiver{unit: unit}
	k := 1 + rng.Intn(9)
	bit := func() bool { return rng.Intn(2) == 0 }
	opt := &runtime_metrics.Options{Interval: time.Duration(k) * unit, Memory: bit(), GC: bit(), GCQuantile: bit(), Goroutines: bit(), Cgo: bit(), FDs: bit()}
	switch rng.Intn(8) {
	case 0:
		opt, k, unit, rcv.unit = nil, 5, time.Second, time.Second
	case 1:
		opt = &runtime_metrics.Options{Interval: opt.Interval, Memory: true, GC: true, GCQuantile: true, Goroutines: true, Cgo: true, FDs: true}
	}
	sel := []string{}
	if opt == nil {
		sel = []string{"memory", "gc", "gcq", "goroutines", "cgo", "fds"}
	} else {
		for i, b := range []bool{opt.Memory, opt.GC, opt.GCQuantile, opt.Goroutines, opt.Cgo, opt.FDs} {
			if b {
				sel = append(sel, []string{"memory", "gc", "gcq", "goroutines", "cgo", "fds"}[i])
			}
		}
	}
	r.SetCfg(hx.Ev{"sel": sel, "interval": k})
	rm := runtime_metrics.NewRuntimeMetrics(rcv, opt)
	for _, s := range sel {
		rcv.n += map[string]int{"memory": 2, "gc": 4, "gcq": 2, "goroutines": 1, "cgo": 1, "fds": 1}[s]
	}
	if k > 1 && rng.Intn(4) == 0 {
		rcv.slow = time.Duration(1+rng.Intn(k-1)) * unit
	}
	idle := func() {
		for rcv.busy {
			time.Sleep(unit)
			synctest.Wait()
			r.Log(rcv.take(hx.Ev{"op": "adv", "dt": 1}))
		}
	}
	rcv.start = time.Now()
	release := make(chan struct{})
	var files []*os.File
	ballast, objs = nil, nil
	started, stopped := false, false
	for _, o := range sc.Ops {
		switch o.S("op") {
		case "start":
			if started && !stopped {
				continue
			}
			idle()
			started, stopped = true, false
			rm.Start()
			synctest.Wait()
			r.Log(rcv.take(hx.Ev{"op": "start"}))
		case "stop":
			if !started || stopped {
				continue
			}
			idle()
			stopped = true
			ret := hx.Call(rm.Stop)
			synctest.Wait()
			r.Log(rcv.take(hx.Ev{"op": "stop", "ret": ret, "left": hx.NewLeaks(base)}))
			if !ret {
				return
			}
		case "report":
			rcv.asked = true
			rm.Report()
			rcv.asked = false
			r.Log(rcv.take(hx.Ev{"op": "report"}))
		case "adv":
			time.Sleep(time.Duration(o.I("dt")) * unit)
			synctest.Wait()
			r.Log(rcv.take(hx.Ev{"op": "adv", "dt": o.I("dt")}))
		case "load":
			n := o.I("n")
			switch o.S("k") {
			case "gc":
				runtime.GC()
			case "autogc": // collections nobody asked for
				debug.SetGCPercent(1)
				for i := 0; i < 40*n; i++ {
					ballast = append(ballast, make([]byte, 1<<19))
					ballast = nil
				}
				debug.SetGCPercent(20000)
				runtime.GC()
			case "garbage":
				for i := 0; i < 200000; i++ {
					objs = append(objs, new([16]byte))
				}
				objs = nil
				runtime.GC()
			case "mem":
				ballast = append(ballast, make([]byte, n*8<<20))
			case "objs":
				for i := 0; i < 100000*n; i++ {
					objs = append(objs, new([16]byte))
				}
			case "goroutines":
				if rng.Intn(4) == 0 {
					n *= 100
				}
				for i := 0; i < 10*n; i++ {
					go func() { <-release }()
				}
				synctest.Wait()
			case "fds":
				if rng.Intn(4) == 0 && len(files) < 100 {
					n = 30
				}
				for i := 0; i < 10*n; i++ {
					if len(files) > 500 {
						break
					}
					if f, err := os.Open("/dev/null"); err == nil {
						files = append(files, f)
					}
				}
			case "close":
				for _, f := range files {
					f.Close()
				}
				files = nil
			}
			continue
		}
	}
	for _, f := range files {
		f.Close()
	}
	close(release)
	ballast, objs = nil, nil
	if started && !stopped {
		idle()
		ret := hx.Call(rm.Stop)
		synctest.Wait()
		r.Log(rcv.take(hx.Ev{"op": "stop", "ret": ret, "left": hx.NewLeaks(base)}))
	}
	time.Sleep(100 * time.Duration(k) * unit)
	synctest.Wait()
	r.Log(rcv.take(hx.Ev{"op": "adv", "dt": 100 * k}))
}
