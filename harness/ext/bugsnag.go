// Package ext drives the Bugsnag and Librato sinks and the runtime metrics.
package ext

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/stack"
	"verif/hx"
)

// callers captures the calling function's stack ("file:line pkg:name").
func callers(n int) []string {
	pcs := make([]uintptr, n)
	fr := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs)])
	out := []string{}
	for {
		f, more := fr.Next()
		out = append(out, frameText(f.File, f.Line, f.Function)+fmt.Sprintf(" %v", !strings.HasPrefix(f.File, runtime.GOROOT())))
		if !more {
			return out
		}
	}
}

func frameText(file string, line int, fn string) string {
	pkg := ""
	if i := strings.LastIndex(fn, "/"); i >= 0 {
		pkg, fn = fn[:i+1], fn[i+1:]
	}
	if i := strings.Index(fn, "."); i >= 0 {
		pkg, fn = pkg+fn[:i], fn[i+1:]
	}
	return fmt.Sprintf("%s:%d %s:%s", file, line, pkg, fn)
}

type recordArgs struct {
	job   health.EventReceiver
	ev    string
	err   error
	kvs   map[string]string
	plain bool
	stack []string
	ret   error
}

func ownStack() []string { return callers(50) }

func here(a *recordArgs) *recordArgs {
	a.stack = callers(50)
	return a
}

func siteA(a *recordArgs) {
	if a.plain {
		a.ret = here(a).job.EventErr(a.ev, a.err)
	} else {
		a.ret = here(a).job.EventErrKv(a.ev, a.err, a.kvs)
	}
}

type siteT struct{ depth int }

func (s *siteT) siteB(a *recordArgs) {
	if s.depth > 0 {
		s.depth--
		s.siteB(a)
		return
	}
	if a.plain {
		a.ret = here(a).job.EventErr(a.ev, a.err)
	} else {
		a.ret = here(a).job.EventErrKv(a.ev, a.err, a.kvs)
	}
}

func siteC(a *recordArgs) {
	f := func() { siteA(a) }
	f()
}

type bugsnagPost struct {
	APIKey string `json:"apiKey"`
	Events []struct {
		Exceptions []struct {
			ErrorClass string `json:"errorClass"`
			Message    string `json:"message"`
			Stacktrace []struct {
				File       string `json:"file"`
				LineNumber int    `json:"lineNumber"`
				Method     string `json:"method"`
				InProject  bool   `json:"inProject"`
			} `json:"stacktrace"`
		} `json:"exceptions"`
		Context string `json:"context"`
		App     struct {
			ReleaseStage string `json:"releaseStage"`
			Version      string `json:"version"`
		} `json:"app"`
		Device struct {
			Hostname string `json:"hostname"`
		} `json:"device"`
		Metadata struct {
			Request struct {
				Url        string `json:"url"`
				Parameters string `json:"parameters"`
			} `json:"request"`
			Kvs map[string]string `json:"kvs"`
		} `json:"metaData"`
	} `json:"events"`
}

// clip keeps huge strings (panic stacks) short.
func clip(s string) string {
	if len(s) > 300 {
		h := fnv.New64a()
		h.Write([]byte(s))
		return s[:300] + fmt.Sprintf("...%d#%x", len(s), h.Sum64())
	}
	return s
}

func kvPairs(m map[string]string) [][]string {
	out := hx.KvList(m)
	for _, p := range out {
		p[1] = clip(p[1])
	}
	return out
}

func readPost(req *http.Request, body []byte) hx.Ev {
	var p bugsnagPost
	bad := hx.Ev{"ok": false, "raw": clip(string(body))}
	if req.Method != "POST" || !strings.HasPrefix(req.Header.Get("Content-Type"), "application/json") || json.Unmarshal(body, &p) != nil || len(p.Events) != 1 || len(p.Events[0].Exceptions) != 1 {
		return bad
	}
	e := p.Events[0]
	x := e.Exceptions[0]
	st := []string{}
	for _, f := range x.Stacktrace {
		st = append(st, fmt.Sprintf("%s:%d %s %v", f.File, f.LineNumber, f.Method, f.InProject))
	}
	return hx.Ev{"ok": true, "key": p.APIKey, "stage": e.App.ReleaseStage, "version": e.App.Version, "host": e.Device.Hostname, "url": req.URL.String(),
		"rurl": hx.Lat(clip(e.Metadata.Request.Url)), "rform": hx.Lat(clip(e.Metadata.Request.Parameters)),
		"context": hx.Lat(e.Context), "class": hx.Lat(x.ErrorClass), "msg": hx.Lat(x.Message), "kvs": kvPairs(e.Metadata.Kvs), "stack": st}
}

// Bugsnag drives one stream with one or two Bugsnag sinks.
func Bugsnag(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	tr := hx.InstallTransport()
	ns := 1 + rng.Intn(2)
	var mu sync.Mutex
	posts := make([][]hx.Ev, 2)
	script := "ok"
	keys, stages, hosts, urls, vers := []string{}, []string{}, []string{}, []string{}, []string{}
	name, _ := os.Hostname()
	dflt := func(s, d string) string {
		if s == "" {
			return d
		}
		return s
	}
	for i := 1; i <= 2; i++ {
		keys = append(keys, fmt.Sprint("key", i))
		stages = append(stages, []string{"", "production", "stage1", "stage2"}[rng.Intn(4)])
		hosts = append(hosts, []string{"", "localhost", "host1", "host2"}[rng.Intn(4)])
		vers = append(vers, []string{"", "1.0", "v2-rc1"}[rng.Intn(3)])
		urls = append(urls, fmt.Sprintf("http://bugsnag%d.test/%s", i, sc.ID))
	}
	tr.Set(func(req *http.Request, body []byte) (*http.Response, error) {
		mu.Lock()
		s := script
		for i, u := range urls {
			if req.URL.String() == u {
				posts[i] = append(posts[i], readPost(req, body))
			}
		}
		mu.Unlock()
		switch s {
		case "slow":
			time.Sleep(time.Duration(1+len(body)%50) * time.Second)
		case "slowerr":
			time.Sleep(time.Duration(1+len(body)%50) * time.Second)
			return nil, errors.New("timeout")
		case "reject":
			return hx.Response(400, hx.NewBody("invalid apikey", -1)), nil
		case "status500":
			return hx.Response(500, hx.NewBody("", -1)), nil
		case "err":
			return nil, errors.New("connection refused")
		case "bodyerr":
			return hx.Response(200, hx.NewBody("OK", 1)), nil
		}
		return hx.Response(200, hx.NewBody("OK", -1)), nil
	})
	wstages, whosts := []string{}, []string{}
	for i := range keys {
		wstages = append(wstages, dflt(stages[i], "production"))
		whosts = append(whosts, dflt(hosts[i], name))
	}
	r.SetCfg(hx.Ev{"n": ns, "keys": keys, "stages": wstages, "hosts": whosts, "urls": urls, "vers": vers})
	stream := health.NewStream()
	var sinks []*bugsnag.Sink
	for i := 0; i < ns; i++ {
		s := bugsnag.NewSink(&bugsnag.Config{APIKey: keys[i], Endpoint: urls[i], ReleaseStage: stages[i], Hostname: hosts[i], AppVersion: vers[i]})
		sinks = append(sinks, s)
		stream.AddSink(s)
	}
	jn, en, kn, vn, mn := hx.NewJobs(rng, hx.UTF8Names), hx.NewNames(rng, hx.UTF8Names), hx.NewNames(rng, hx.UTF8Names), hx.NewNames(rng, hx.UTF8Names), hx.NewNames(rng, hx.UTF8Names)
	if rng.Intn(10) == 0 {
		[]*hx.NameSet{jn, en, kn}[rng.Intn(3)].Long()
	}
	// in some scenarios the key/values say which request it was
	switch rng.Intn(4) {
	case 0:
		kn.Set("k1", "request")
	case 1:
		kn.Set("k1", "formdata")
	case 2:
		kn.Set("k1", "request")
		kn.Set("k2", "formdata")
	}
	jobs := map[string]*health.Job{}
	jobKv, streamKv := map[string]map[string]string{}, map[string]string{}
	job := func(id string) *health.Job {
		if jobs[id] == nil {
			jobs[id] = stream.NewJob(jn.Get(id))
			jobKv[id] = map[string]string{}
		}
		return jobs[id]
	}
	maps := map[string]map[string]string{"m1": {}, "m2": {}}
	wrapped := map[int]error{}
	alike := ""
	text := map[int]string{}
	stacks := map[int][]string{}
	outstanding := 0
	log := func(e hx.Ev) {
		mu.Lock()
		p := [][]hx.Ev{{}, {}}
		for i := range p {
			if posts[i] != nil {
				p[i] = posts[i]
			}
			posts[i] = nil
		}
		e["posts"] = p
		mu.Unlock()
		r.Log(e)
	}
	union := func(jid string, m map[string]string) map[string]string {
		u := map[string]string{}
		for _, x := range []map[string]string{streamKv, jobKv[jid], m} {
			for k, v := range x {
				u[k] = v
			}
		}
		return u
	}
	record := func(x int, how, jid, ev, fn string, kvs map[string]string, plain bool) hx.Ev {
		j := job(jid)
		a := &recordArgs{job: j, ev: ev, kvs: kvs, plain: plain}
		var own []string
		switch how {
		case "fresh":
			text[x] = mn.Get(fmt.Sprint(x % 7))
			if rng.Intn(15) == 0 {
				text[x] += strings.Repeat(" and so on", rng.Intn(3000))
			}
			kind := rng.Intn(12)
			if alike != "" {
				text[x], kind = alike, 11
			}
			a.err = errors.New(text[x])
			switch kind {
			case 0, 1: // about an error that has been reported, or that is not to be
				var about error = health.Mute(errors.New("m"))
				if rng.Intn(2) == 0 && wrapped[x-1] != nil {
					about = wrapped[x-1]
				}
				a.err = fmt.Errorf("%s: %w", text[x], about)
				text[x] = a.err.Error()
			case 2: // wrapped by the application itself, without a stack
				a.err, own = &health.UnmutedError{Err: a.err}, []string{}
			case 3: // with the stack of another place
				a.err, own = &health.UnmutedError{Err: a.err, Stack: stack.NewTrace(0)}, ownStack()
			}
		case "mute":
			text[x] = mn.Get(fmt.Sprint(x % 7))
			a.err = health.Mute(errors.New(text[x]))
		case "again":
			a.err = wrapped[x]
		}
		if plain {
			kvs = nil
		}
		u := union(jid, kvs)
		n := hx.Ev{"job": hx.Lat(jn.Get(jid)), "ev": hx.Lat(ev), "msg": hx.Lat(text[x]), "kvs": kvPairs(u),
			"rurl": hx.Lat(clip(u["request"])), "rform": hx.Lat(clip(u["formdata"]))}
		switch fn {
		case "siteA":
			siteA(a)
		case "siteB":
			(&siteT{rng.Intn([]int{3, 3, 60}[rng.Intn(3)])}).siteB(a)
		case "siteC":
			siteC(a)
		}
		if how != "again" {
			stacks[x] = a.stack
			if own != nil {
				stacks[x] = own
			}
			wrapped[x] = a.ret
		}
		n["stack"] = stacks[x]
		return n
	}
	chain := make(chan func(), 1000)
	go func() {
		for f := range chain {
			f()
			mu.Lock()
			outstanding--
			mu.Unlock()
		}
	}()
	for _, o := range sc.Ops {
		o := o
		var f func()
		switch o.S("op") {
		case "rec":
			f = func() {
				m := maps[o.S("m")]
				if rng.Intn(4) == 0 {
					m = nil
				}
				n := record(o.I("x"), o.S("how"), o.S("job"), en.Get(o.S("ev")), o.S("fn"), m, o.S("call") == "EventErr")
				log(hx.Ev{"op": "rec", "how": o.S("how"), "x": o.I("x"), "n": n})
			}
		case "burst":
			f = func() {
				out := []hx.Ev{}
				alike = ""
				if rng.Intn(2) == 0 {
					alike = mn.Get("0")
					if alike == "" {
						alike = "it"
					}
				}
				for i := 0; i < o.I("n"); i++ {
					if alike != "" { // different errors nevertheless
						out = append(out, record(o.I("x")+i, "fresh", o.S("job"), en.Get(o.S("ev")), "siteA", nil, true))
						continue
					}
					out = append(out, record(o.I("x")+i, "fresh", o.S("job"), en.Get(o.S("ev")), "siteA", map[string]string{"i": fmt.Sprint(i)}, false))
				}
				alike = ""
				log(hx.Ev{"op": "burst", "x": o.I("x"), "ns": out})
			}
		case "other":
			f = func() {
				j := job(o.S("job"))
				switch o.S("k") {
				case "event":
					j.Event(en.Get(o.S("ev")))
				case "timing":
					j.Timing(en.Get(o.S("ev")), 5)
				case "gauge":
					j.Gauge(en.Get(o.S("ev")), 5)
				case "complete":
					j.Complete(health.Error)
				}
				log(hx.Ev{"op": "other"})
			}
		case "kvset":
			f = func() {
				k, v := kn.Get(o.S("key")), vn.Get(o.S("val"))
				if o.S("job") == "stream" {
					stream.KeyValue(k, v)
					streamKv[k] = v
				} else {
					job(o.S("job")).KeyValue(k, v)
					jobKv[o.S("job")][k] = v
				}
				log(hx.Ev{"op": "kvset"})
			}
		case "mapset":
			f = func() {
				m := maps[o.S("m")]
				m[kn.Get(o.S("key"))] = vn.Get(o.S("val"))
				if rng.Intn(3) == 0 {
					delete(m, kn.Get("k1"))
				}
				log(hx.Ev{"op": "mapset"})
			}
		case "script":
			mu.Lock()
			script = o.S("out")
			mu.Unlock()
			continue
		case "adv":
			time.Sleep(time.Duration(o.I("dt")) * time.Second)
			continue
		}
		mu.Lock()
		outstanding++
		mu.Unlock()
		chain <- f
		synctest.Wait()
	}
	time.Sleep(24 * time.Hour)
	synctest.Wait()
	mu.Lock()
	left := outstanding
	mu.Unlock()
	log(hx.Ev{"op": "settle", "blocked": left})
	close(chain)
	for _, s := range sinks {
		hx.Call(s.ShutdownServer)
	}
}
