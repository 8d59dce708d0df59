package ext

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/runtime_metrics"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/sinks/librato"
	"verif/hx"
)

// slowReceiver reports every gauge as an output and may take its time.
type slowReceiver struct {
	*receiver
	out func()
}

func (s *slowReceiver) Gauge(string, float64) { s.out() }

// Life drives one component through concurrent use and one stop.
func Life(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	base := hx.HealthGoroutines()
	comp := []string{"poll", "librato", "bugsnag", "runtime"}[rng.Intn(4)]
	r.SetCfg(hx.Ev{"comp": comp})
	var mu sync.Mutex
	obs := []hx.Ev{}
	see := func(e hx.Ev) {
		mu.Lock()
		obs = append(obs, e)
		mu.Unlock()
	}
	stall := 0
	out := func() {
		see(hx.Ev{"t": "out"})
		mu.Lock()
		d := stall
		mu.Unlock()
		if d > 0 {
			time.Sleep(time.Duration(d) * time.Second)
		}
	}
	tr := hx.InstallTransport()
	tr.Set(func(req *http.Request, body []byte) (*http.Response, error) {
		out()
		if len(body)%3 == 0 {
			return nil, errors.New("refused")
		}
		return hx.Response(200, hx.NewBody("OK", -1)), nil
	})
	var sink health.Sink
	var stop func()
	use := func(k int) {}
	switch comp {
	case "poll":
		s := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		sink, stop = s, s.ShutdownServer
		use = func(k int) { s.GetMetrics() }
	case "librato":
		s := librato.New("u", "k", "p")
		sink, stop = s, s.Stop
	case "bugsnag":
		s := bugsnag.NewSink(&bugsnag.Config{APIKey: "k", Endpoint: "http://bugsnag.test/"})
		sink, stop = s, s.ShutdownServer
	case "runtime":
		rcv := &slowReceiver{out: out}
		opt := &runtime_metrics.Options{Interval: time.Second, FDs: true, Goroutines: true}
		if rng.Intn(3) == 0 {
			opt = nil
		}
		m := runtime_metrics.NewRuntimeMetrics(rcv, opt)
		m.Start()
		stop = m.Stop
		use = func(k int) { // an explicit report; not an output of its own accord
		}
	}
	stream := health.NewStream()
	if sink != nil {
		stream.AddSink(sink)
	}
	record := func(p, n int) {
		job := stream.NewJob(fmt.Sprint("j", p))
		for i := 0; i < n; i++ {
			switch (i + p) % 5 {
			case 0:
				job.EventErr("e", fmt.Errorf("err %d.%d", p, i))
			case 1:
				job.Event("e")
			case 2:
				job.Timing("t", int64(i))
			case 3:
				job.Gauge("g", float64(i))
			case 4:
				job.Complete(health.Success)
			}
		}
	}
	stopped := false
	doStop := func() {
		stopped = true
		go func() {
			see(hx.Ev{"t": "call"})
			stop()
			see(hx.Ev{"t": "ret"})
		}()
	}
	flush := func(op string, e hx.Ev) {
		synctest.Wait()
		mu.Lock()
		e["op"] = op
		e["obs"] = obs
		obs = []hx.Ev{}
		mu.Unlock()
		r.Log(e)
	}
	for i, o := range sc.Ops {
		i := i
		switch o.S("op") {
		case "emit":
			if !stopped {
				go record(i, o.I("n"))
			}
		case "use":
			if !stopped {
				go use(i)
			}
		case "stall":
			mu.Lock()
			stall = o.I("d")
			mu.Unlock()
			continue
		case "adv":
			time.Sleep(time.Duration(o.I("dt")) * time.Second)
		case "stop":
			if !stopped {
				doStop()
			}
		case "storm":
			if stopped {
				continue
			}
			fs := []func(){doStop}
			for k := 0; k < 4; k++ {
				k := k
				fs = append(fs, func() { go record(i*10+k, o.I("n")) }, func() { go use(k) })
			}
			rng.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
			for _, f := range fs {
				f()
			}
		}
		flush(o.S("op"), hx.Ev{})
	}
	if !stopped {
		doStop()
		flush("stop", hx.Ev{})
	}
	time.Sleep(10 * time.Hour) // every stall of the queue is over by then
	flush("settle", hx.Ev{"left": 0})
	time.Sleep(time.Hour)
	flush("settle", hx.Ev{"left": hx.NewLeaks(base)})
}

// srvBad: a run went wrong; the others would only cost time.
var srvBad bool

// LifeSrv is Life for a polling sink with its HTTP server, in real time.
func LifeSrv(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	r.SetCfg(hx.Ev{"comp": "pollsrv"})
	if srvBad {
		return
	}
	base := hx.HealthGoroutines()
	var mu sync.Mutex
	obs := []hx.Ev{}
	see := func(e hx.Ev) {
		mu.Lock()
		obs = append(obs, e)
		mu.Unlock()
	}
	flush := func(op string, e hx.Ev) {
		mu.Lock()
		e["op"] = op
		e["obs"] = obs
		obs = []hx.Ev{}
		mu.Unlock()
		r.Log(e)
	}
	sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	tr := &http.Transport{}
	client := &http.Client{Transport: tr, Timeout: 10 * time.Second}
	defer tr.CloseIdleConnections()
	var addrs []string
	for i := 0; i < 1+rng.Intn(2); i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return
		}
		a := l.Addr().String()
		l.Close()
		sink.StartServer(a)
		addrs = append(addrs, a)
	}
	get := func(a string) (int, error) {
		resp, err := client.Get("http://" + a + "/health")
		if err != nil {
			return 0, err
		}
		defer resp.Body.Close()
		io.Copy(io.Discard, resp.Body)
		return resp.StatusCode, nil
	}
	if rng.Intn(4) > 0 {
		for _, a := range addrs { // wait until they listen
			ok := false
			for k := 0; k < 1000 && !ok; k++ {
				code, err := get(a)
				ok = err == nil && code == 200
				if !ok {
					time.Sleep(10 * time.Millisecond)
				}
			}
			if !ok {
				return // the port was taken: nothing to be learnt
			}
		}
	}
	var wg sync.WaitGroup
	hammer := func(a string) {
		defer wg.Done()
		for k := 0; k < 30; k++ {
			if code, err := get(a); err != nil || code != 200 {
				return
			}
		}
	}
	for _, o := range sc.Ops {
		switch o.S("op") {
		case "emit":
			for i := 0; i < o.I("n") && i < 2000; i++ {
				sink.EmitEvent("j", fmt.Sprint(i%300), nil)
			}
		case "use", "storm":
			for _, a := range addrs {
				wg.Add(2)
				go hammer(a)
				go hammer(a)
			}
		default:
			continue
		}
		flush(o.S("op"), hx.Ev{})
	}
	time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
	done := make(chan bool)
	go func() {
		see(hx.Ev{"t": "call"})
		sink.ShutdownServer()
		see(hx.Ev{"t": "ret"})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
	}
	over := make(chan bool)
	go func() { wg.Wait(); close(over) }()
	select {
	case <-over:
	case <-time.After(30 * time.Second):
	}
	flush("stop", hx.Ev{})
	for _, a := range addrs {
		if code, err := get(a); err == nil && code == 200 {
			see(hx.Ev{"t": "out"})
		}
	}
	left := 0
	for k := 0; k < 1000; k++ { // goroutines of closed connections take a moment to end
		if left = hx.NewLeaks(base) + serving(); left == 0 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	mu.Lock()
	srvBad = left > 0 || len(obs) > 0
	mu.Unlock()
	flush("settle", hx.Ev{"left": left})
}

// serving counts goroutines inside the sink's HTTP handler.
func serving() int {
	return strings.Count(hx.AllStacks(), "(*JsonPollingSink).ServeHTTP")
}
