package core

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"verif/hx"
)

func datagrams(ds []string) []hx.Ev {
	out := []hx.Ev{}
	for _, d := range ds {
		ls := []string{}
		for _, s := range strings.Split(d, "\n") {
			ls = append(ls, hx.Lat(s))
		}
		out = append(out, hx.Ev{"n": len(d), "ls": ls})
	}
	return out
}

// ---- values ----------------------------------------------------------------

type sdDur struct {
	n int64
}

func (d sdDur) ev() hx.Ev {
	n, neg := d.n, false
	var a uint64
	if n < 0 {
		neg = true
		a = uint64(-n)
	} else {
		a = uint64(n)
	}
	ms := a / 1000000
	return hx.Ev{"neg": neg, "hi": int64(ms / 1000000), "lo": int64(ms % 1000000), "ns": int64(a % 1000000)}
}

func randDur(rng *rand.Rand) int64 {
	switch rng.Intn(12) {
	case 0:
		return 0
	case 1:
		return int64(rng.Intn(20000))
	case 2: // around hundredths
		return int64(rng.Intn(1000))*10000 + int64(rng.Intn(5)) - 2
	case 3: // ties and their neighbours
		return int64(rng.Intn(1000))*10000 + 5000 + int64(rng.Intn(3)) - 1
	case 4:
		return 10000000 + int64(rng.Intn(7)) - 3
	case 5:
		return 9990000 + int64(rng.Intn(20000))
	case 6:
		return int64(rng.Intn(5000))*1000000 + int64(rng.Intn(3)) - 1
	case 7:
		return rng.Int63n(2000000000)
	case 8:
		return rng.Int63n(4000000000000000)
	case 9:
		return []int64{math.MaxInt64, math.MaxInt64 - 1, 1 << 53, 1<<53 + 1, 999999999999, 1000000000000, 2147483647, 2147483648}[rng.Intn(8)]
	case 10:
		return -rng.Int63n(2000000000)
	default:
		return -rng.Int63n(30000)
	}
}

func randStatsdGauge(rng *rand.Rand) (float64, hx.Ev) {
	sign := ""
	neg := rng.Intn(3) == 0
	if neg {
		sign = "-"
	}
	switch rng.Intn(6) {
	case 0, 1:
		k := 100 + rng.Int63n(5000)
		if rng.Intn(4) == 0 {
			k = 100 + rng.Int63n(2000000000)
		}
		if rng.Intn(8) == 0 {
			k = 100
		}
		f, _ := strconv.ParseFloat(fmt.Sprintf("%s%d.%03d", sign, k/1000, k%1000), 64)
		return f, hx.Ev{"t": "milli", "neg": neg, "k": k}
	case 2, 3:
		is := []string{"1", "3", "25", "100", "65536", "1000000", "123456789", "4294967296", "9007199254740992", "1000000000000000000000", "1267650600228229401496703205376"}
		s := is[rng.Intn(len(is))]
		f, _ := strconv.ParseFloat(sign+s, 64)
		return f, hx.Ev{"t": "int", "s": sign + s}
	default:
		ss := []string{"0.05", "0.099", "0.0999", "0.09999999", "0.01", "0.005", "0.004", "0.00012345", "0.000001", "0.0000001", "0.000000123456789", "0.07", "0.0123456789", "0"}
		s := ss[rng.Intn(len(ss))]
		if s == "0" {
			sign = ""
		}
		f, _ := strconv.ParseFloat(sign+s, 64)
		return f, hx.Ev{"t": "small", "s": sign + s}
	}
}

func letters(rng *rand.Rand, n int) string {
	const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
	b := make([]byte, n)
	for i := range b {
		b[i] = al[rng.Intn(len(al))]
	}
	return string(b)
}

func noNewlines(xs []string) (out []string) {
	for _, x := range xs {
		if !strings.Contains(x, "\n") {
			out = append(out, x)
		}
	}
	return
}

// Statsd drives one sink from one goroutine and reads what it sends.
func Statsd(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	u := hx.NewUDP()
	defer u.Close()
	packing := sc.Kind == "C11"
	opt := &health.StatsDSinkOptions{}
	cfg := hx.Ev{"san": "default"}
	names := func() string { return hx.NewNames(rng, noNewlines(hx.ByteNames)).Get("x") }
	switch rng.Intn(3) {
	case 0:
		opt.Prefix = names()
	case 1:
		opt.Prefix = "metroid"
	}
	opt.SkipNestedEvents = rng.Intn(3) == 0
	opt.SkipTopLevelEvents = rng.Intn(3) == 0
	if packing {
		opt.Prefix = []string{"", "p", "metroid"}[rng.Intn(3)]
		opt.SkipTopLevelEvents = false
		opt.SkipNestedEvents = rng.Intn(4) > 0
		cfg["san"] = "plain"
	} else if rng.Intn(4) == 0 {
		cfg["san"] = "bracket"
		opt.SanitizationFunc = func(b *bytes.Buffer, s string) { b.WriteString("<" + s + ">") }
	}
	useNil := !packing && cfg["san"] == "default" && rng.Intn(5) == 0
	if useNil {
		opt = &health.StatsDSinkOptions{}
	}
	cfg["prefix"], cfg["skiptop"], cfg["skipnested"] = hx.Lat(opt.Prefix), opt.SkipTopLevelEvents, opt.SkipNestedEvents
	r.SetCfg(cfg)
	var sink *health.StatsDSink
	var err error
	if useNil {
		sink, err = health.NewStatsDSink(u.Addr(), nil)
	} else {
		sink, err = health.NewStatsDSink(u.Addr(), opt)
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
	pool := hx.ByteNames
	if cfg["san"] == "bracket" {
		pool = noNewlines(pool)
	}
	jobs, evs := hx.NewJobs(rng, pool), hx.NewNames(rng, pool)
	if rng.Intn(6) == 0 || cfg["san"] == "bracket" && rng.Intn(2) == 0 { // whose job and event parts look alike when put together
		jobs, evs = hx.NewNames(rng, []string{"a", "a.b", "a.b.b", "", "."}), hx.NewNames(rng, []string{"b", "b.b", "b.error", ".b", "a.b", "error"})
	}
	durs, gauges, gaugeEvs := map[string]int64{}, map[string]float64{}, map[string]hx.Ev{}
	fill := 0
	plen := 0
	if opt.Prefix != "" {
		plen = len(opt.Prefix) + 1
	}
	elapsed := 0
	small := make([]string, 6)
	for i := range small {
		small[i] = letters(rng, 1+rng.Intn(40))
	}
	if !packing && rng.Intn(50) == 0 {
		// more names than any cache may hold; some come back later
		n := []int{70, 130, 300, 1100}[rng.Intn(4)]
		for i := 0; i < n; i++ {
			job, ev := fmt.Sprint("j", rng.Intn(3)), fmt.Sprint("n", i)
			if i > 60 && rng.Intn(8) == 0 {
				ev = fmt.Sprint("n", rng.Intn(i))
			}
			k := []string{"event", "event", "err", "timing"}[rng.Intn(4)]
			e := hx.Ev{"op": "emit", "k": k, "job": job, "ev": ev}
			if k == "timing" {
				e["v"] = sdDur{20000000}.ev()
			}
			if !hx.Call(func() { emitTo(sink, k, job, ev, 20000000, 0, 0, errors.New("boom"), nil) }) {
				r.Log(hx.Ev{"op": "hang"})
				return
			}
			synctest.Wait()
			e["got"] = datagrams(u.Recv())
			if u.Dropped() {
				return
			}
			r.Log(e)
		}
	}
	for _, o := range sc.Ops {
		e := hx.Ev{"op": o.S("op")}
		switch o.S("op") {
		case "emit":
			k := o.S("k")
			var job, ev string
			e["k"] = k
			job = jobs.Get(o.S("job"))
			if k != "complete" {
				ev = evs.Get(o.S("ev"))
			}
			if packing {
				job = small[rng.Intn(3)]
				ev = small[3+rng.Intn(3)]
				if k == "event" {
					L := 0
					over := plen + len(":1|c\n")
					switch rng.Intn(8) {
					case 0, 1, 2: // fill the datagram exactly, or miss by one or two
						L = 1440 - fill - over + rng.Intn(5) - 2
					case 3: // a line at or around the limit by itself
						L = 1440 - over + rng.Intn(5) - 2
					case 4:
						L = 1400 + rng.Intn(200)
					case 5:
						L = 300 + rng.Intn(500)
					case 6:
						L = 1 + rng.Intn(60)
					}
					if L >= 1 {
						ev = letters(rng, L)
					}
					line := over + len(ev)
					if line <= 1440 {
						if fill+line > 1440 {
							fill = 0
						}
						fill += line
					}
				} else {
					fill += plen + len(ev) + 8
				}
			}
			e["job"] = hx.Lat(job)
			if k != "complete" {
				e["ev"] = hx.Lat(ev)
			}
			var v int64
			var g float64
			if k == "timing" || k == "complete" {
				id := o.S("v")
				if _, ok := durs[id]; !ok || rng.Intn(2) == 0 {
					durs[id] = randDur(rng)
					if packing {
						durs[id] = int64(rng.Intn(100)) * 1000000
					}
				}
				v = durs[id]
				e["v"] = sdDur{v}.ev()
			}
			if k == "gauge" {
				id := o.S("g")
				if _, ok := gauges[id]; !ok || rng.Intn(2) == 0 {
					gauges[id], gaugeEvs[id] = randStatsdGauge(rng)
				}
				g = gauges[id]
				e["g"] = gaugeEvs[id]
			}
			st := o.S("st")
			if k == "complete" {
				e["st"] = st
			}
			kvs := map[string]string{"k": "v"}
			if rng.Intn(2) == 0 {
				kvs = nil
			}
			if !hx.Call(func() { emitTo(sink, k, job, ev, v, g, statusByName[st], errors.New("boom"), kvs) }) {
				r.Log(hx.Ev{"op": "hang"})
				return
			}
			synctest.Wait()
			e["got"] = datagrams(u.Recv())
		case "drain":
			var got []string
			e["ret"] = hx.Call(func() {
				sink.Drain()
				got = u.Recv()
			})
			e["got"] = datagrams(got)
			fill = 0
			if e["ret"] == false {
				r.Log(e)
				return
			}
		case "adv":
			dt := o.I("dt")
			after := 0
			if packing && rng.Intn(2) == 0 && 100-elapsed%100 >= 2 {
				// up to the very moment of a flush, with something to be flushed
				left := 100 - elapsed%100
				dt = 1 + rng.Intn(left-1)
				after = 100 - dt
				time.Sleep(time.Duration(left-dt) * time.Millisecond)
				synctest.Wait()
				r.Log(hx.Ev{"op": "adv", "dt": left - dt, "got": datagrams(u.Recv())})
				sink.EmitEvent("j", small[3], nil)
				synctest.Wait()
				r.Log(hx.Ev{"op": "emit", "k": "event", "job": "j", "ev": small[3], "got": datagrams(u.Recv())})
				elapsed += left - dt
				fill = 0
			}
			elapsed += dt
			e["dt"] = dt
			if after > 0 {
				// at that moment more is being recorded
				e["op"] = "busy"
				es := []hx.Ev{}
				for i := 0; i < 5+rng.Intn(30); i++ {
					es = append(es, hx.Ev{"k": "event", "job": "j", "ev": letters(rng, 1+rng.Intn(5))})
				}
				done := make(chan bool)
				go func() {
					time.Sleep(time.Duration(dt) * time.Millisecond)
					for _, x := range es {
						sink.EmitEvent("j", x["ev"].(string), nil)
					}
					close(done)
				}()
				<-done
				e["es"] = es
			} else {
				time.Sleep(time.Duration(dt) * time.Millisecond)
			}
			synctest.Wait()
			e["got"] = datagrams(u.Recv())
			if after > 0 {
				r.Log(e)
				time.Sleep(time.Duration(after) * time.Millisecond)
				synctest.Wait()
				elapsed += after
				dt = 100
				e = hx.Ev{"op": "adv", "dt": after, "got": datagrams(u.Recv())}
			}
			if dt >= 100 {
				fill = 0
			}
		}
		if u.Dropped() {
			return
		}
		r.Log(e)
	}
	// everything comes out in the end
	time.Sleep(100 * time.Millisecond)
	synctest.Wait()
	got := u.Recv()
	if !u.Dropped() {
		r.Log(hx.Ev{"op": "adv", "dt": 100, "got": datagrams(got)})
	}
	hx.Call(sink.Stop)
}
