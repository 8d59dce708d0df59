package core

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"verif/hx"
)

// whatever the kind of recording, its line begins with who recorded it and which it was
var lineRE = regexp.MustCompile(`^r(\d+)\.n(\d+)(?:\.error|\.success)?:[0-9.]+\|(?:c|ms|g)$`)

// StatsdQ drives one sink from several goroutines, with a sanitizer that can
// stall the sink's loop.
func StatsdQ(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	base := hx.HealthGoroutines()
	u := hx.NewUDP()
	defer u.Close()
	r.SetCfg(hx.Ev{"note": ""})
	var mu sync.Mutex // guards everything below
	var obs []hx.Ev
	emitted := [4]int{} // recordings begun by each recorder (names)
	done := [4]int{}
	var gate chan struct{}
	stride := 1 << uint(rng.Intn(14)) // how many recordings of one kind in a row
	opt := &health.StatsDSinkOptions{SkipTopLevelEvents: true, SanitizationFunc: func(b *bytes.Buffer, s string) {
		b.WriteString(s)
		if s == "r0" {
			mu.Lock()
			g := gate
			mu.Unlock()
			if g != nil {
				<-g
			}
		}
	}}
	sink, err := health.NewStatsDSink(u.Addr(), opt)
	if err != nil {
		panic("harness: " + err.Error())
	}
	// collect appends what has arrived; mu must be held
	collect := func() {
		for _, d := range u.Recv() {
			if len(d) > 1440 || !strings.HasSuffix(d, "\n") {
				obs = append(obs, hx.Ev{"t": "big"})
				continue
			}
			for _, ln := range strings.Split(strings.TrimSuffix(d, "\n"), "\n") {
				var rr, n int
				if m := lineRE.FindStringSubmatch(ln); m != nil {
					rr, _ = strconv.Atoi(m[1])
					n, _ = strconv.Atoi(m[2])
				} else {
					obs = append(obs, hx.Ev{"t": "bad", "line": hx.Lat(ln)})
					continue
				}
				if k := len(obs); k > 0 && obs[k-1]["t"] == "got" && obs[k-1]["r"] == rr && obs[k-1]["to"] == n-1 {
					obs[k-1]["to"] = n
					continue
				}
				obs = append(obs, hx.Ev{"t": "got", "r": rr, "from": n, "to": n})
			}
		}
	}
	record := func(rr, n int) func() {
		mu.Lock()
		from := emitted[rr]
		emitted[rr] += n
		obs = append(obs, hx.Ev{"t": "call", "c": "rec", "r": rr, "n": n})
		mu.Unlock()
		return func() {
			for k := from + 1; k <= from+n; k++ {
				job, ev := fmt.Sprintf("r%d", rr), fmt.Sprintf("n%d", k)
				switch kind := (k/stride + rr) % 5; {
				case rr == 0 || kind == 0:
					sink.EmitEvent(job, ev, nil)
				case kind == 1:
					sink.EmitEventErr(job, ev, io.EOF, nil)
				case kind == 2:
					sink.EmitTiming(job, ev, 42000000, nil)
				case kind == 3:
					sink.EmitGauge(job, ev, 7, nil)
				default:
					sink.EmitComplete(job+"."+ev, health.Success, 42000000, nil)
				}
				mu.Lock()
				done[rr]++
				mu.Unlock()
			}
			mu.Lock()
			obs = append(obs, hx.Ev{"t": "ret", "c": "rec", "r": rr, "n": n})
			mu.Unlock()
		}
	}
	drain := func(d int) func() {
		return func() {
			mu.Lock()
			obs = append(obs, hx.Ev{"t": "call", "c": "drain", "d": d, "done": []int{done[0], done[1], done[2], done[3]}})
			mu.Unlock()
			sink.Drain()
			mu.Lock()
			collect()
			obs = append(obs, hx.Ev{"t": "ret", "c": "drain", "d": d})
			mu.Unlock()
		}
	}
	stop := func() {
		mu.Lock()
		obs = append(obs, hx.Ev{"t": "call", "c": "stop"})
		mu.Unlock()
		sink.Stop()
		mu.Lock()
		collect()
		obs = append(obs, hx.Ev{"t": "ret", "c": "stop"})
		mu.Unlock()
	}
	// one recorder's batches follow each other
	chains := [4]chan func(){}
	for i := range chains {
		c := make(chan func(), 100)
		chains[i] = c
		go func() {
			for f := range c {
				f()
			}
		}()
	}
	flush := func(e hx.Ev) bool {
		synctest.Wait()
		mu.Lock()
		collect()
		e["obs"] = obs
		if obs == nil {
			e["obs"] = []hx.Ev{}
		}
		obs = nil
		mu.Unlock()
		if u.Dropped() {
			return false
		}
		r.Log(e)
		return true
	}
	for _, o := range sc.Ops {
		switch o.S("op") {
		case "gate":
			mu.Lock()
			gate = make(chan struct{})
			mu.Unlock()
			chains[0] <- record(0, 1)
		case "release":
			mu.Lock()
			close(gate)
			gate = nil
			mu.Unlock()
		case "emit":
			chains[o.I("r")] <- record(o.I("r"), o.I("n"))
		case "drain":
			go drain(o.I("d"))()
		case "stop":
			go stop()
		case "storm":
			fs := []func(){}
			for rr := 1; rr <= 3; rr++ {
				f := record(rr, o.I("n"))
				rr := rr
				fs = append(fs, func() { chains[rr] <- f })
			}
			for k := 0; k < o.I("ds"); k++ {
				f := drain(o.I("d") + k)
				fs = append(fs, func() { go f() })
			}
			if o.B("stop") {
				fs = append(fs, func() { go stop() })
			}
			rng.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
			for _, f := range fs {
				f()
			}
		case "adv":
			time.Sleep(time.Duration(o.I("dt")) * time.Millisecond)
		}
		e := hx.Ev{"op": o.S("op")}
		if !flush(e) {
			return
		}
	}
	mu.Lock()
	g := gate
	if g != nil {
		close(gate)
		gate = nil
	}
	mu.Unlock()
	if g != nil && !flush(hx.Ev{"op": "release"}) {
		return
	}
	time.Sleep(10 * time.Second)
	synctest.Wait()
	if !flush(hx.Ev{"op": "settle", "left": hx.NewLeaks(base)}) {
		return
	}
	mu.Lock()
	obs = nil
	mu.Unlock()
	hx.Call(sink.Stop) // tidy up; after a stop this would hang, which is not claimed
	for _, c := range chains {
		close(c)
	}
}
