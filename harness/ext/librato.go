package ext

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"strings"
	"sync"
	"testing/synctest"
	"time"
	"unicode/utf8"

	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/librato"
	"verif/hx"
)

// runes maps a name to one character of the basic plane per rune.
func runes(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == utf8.RuneError || r > 0xffff {
			r = 0xe000
		}
		b.WriteRune(r)
	}
	return b.String()
}

var statuses = map[string]health.CompletionStatus{"success": health.Success, "validation_error": health.ValidationError, "panic": health.Panic, "error": health.Error, "junk": health.Junk}

// readMetrics decodes a submission generically.
func readMetrics(req *http.Request, body []byte, tu, gu float64, user string) hx.Ev {
	bad := hx.Ev{"ok": false, "ms": []hx.Ev{}, "raw": clip(string(body))}
	if req.Method != "POST" || !strings.HasPrefix(req.Header.Get("Content-Type"), "application/json") {
		return bad
	}
	if u, p, ok := req.BasicAuth(); !ok || u != user || p != "key" {
		return bad
	}
	var v struct {
		Gauges map[string]map[string]interface{} `json:"gauges"`
		At     int64                             `json:"measure_time"`
		Period int64                             `json:"period"`
		Source string                            `json:"source"`
	}
	d := json.NewDecoder(bytes.NewReader(body))
	if d.Decode(&v) != nil || d.More() {
		return bad
	}
	ms := []hx.Ev{}
	for k, g := range v.Gauges {
		num := func(f string, unit float64) int64 {
			x, ok := g[f].(float64)
			if !ok {
				return hx.Bad
			}
			return hx.UnitF(x, unit)
		}
		u := tu
		if strings.HasSuffix(k, ".gauge") {
			u = gu
		}
		if _, ok := g["value"]; ok {
			ms = append(ms, hx.Ev{"key": runes(k), "t": "c", "c": num("value", 1), "s": 0, "q": 0, "mn": 0, "mx": 0})
		} else {
			ms = append(ms, hx.Ev{"key": runes(k), "t": "m", "c": num("count", 1), "s": num("sum", u), "q": num("sum_squares", u*u), "mn": num("min", u), "mx": num("max", u)})
		}
	}
	return hx.Ev{"ok": true, "ms": ms, "age": hx.Unit(time.Now().Unix()-v.At, 1), "period": hx.Unit(v.Period, 1), "source": runes(v.Source)}
}

// Librato drives one sink through flush periods with answering, failing and
// slow endpoints.
func Librato(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	tr := hx.InstallTransport()
	var mu sync.Mutex
	var posts []hx.Ev
	var bodies []*hx.Body
	script := "ok"
	slow := rng.Intn(3) == 0
	code0 := rng.Intn(7)
	tu := []int64{1000000, 1000, 1, 5000000, 1000000000, 250000}[rng.Intn(6)]
	gu := []float64{1, 0.5, 0.001, 1e9, 1e-7, 0.1}[rng.Intn(6)]
	prefix := hx.Pick(rng, []string{"", "", "p", "my.app", "has space"})
	host, _ := os.Hostname()
	san, pool := "default", hx.ByteNames
	if rng.Intn(5) == 0 {
		san, pool = "bracket", hx.UTF8Names
	}
	source := host
	if rng.Intn(8) == 0 {
		source = hx.Pick(rng, []string{"web1", "", "web 1.example.com:5020", "é"})
	}
	r.SetCfg(hx.Ev{"prefix": prefix, "slow": slow, "host": runes(source), "tu": fmt.Sprint(tu), "gu": fmt.Sprint(gu)})
	tr.Set(func(req *http.Request, body []byte) (*http.Response, error) {
		mu.Lock()
		s := script
		posts = append(posts, readMetrics(req, body, float64(tu)/1e6, gu, "user"))
		d, tries := []int{0, 5, 20, 40}[len(body)%4], len(bodies)+code0
		mu.Unlock()
		if slow {
			time.Sleep(time.Duration(d) * time.Second)
		}
		answer := func(code int, b *hx.Body) (*http.Response, error) {
			mu.Lock()
			bodies = append(bodies, b)
			mu.Unlock()
			return hx.Response(code, b), nil
		}
		switch s {
		case "status500":
			return answer([]int{500, 500, 503, 400, 401, 429, 302}[tries%7], hx.NewBody("{}", -1))
		case "err":
			return nil, errors.New("connection refused")
		case "bodyerr":
			return answer(200, hx.NewBody("OK", 1))
		}
		return answer(200, hx.NewBody("", -1))
	})
	sink := librato.New("user", "key", prefix)
	if san == "bracket" {
		sink.SanitizationFunc = func(s string) string { return "<" + s + ">" }
	}
	if source != host {
		sink.Source = source
	}
	jn, en := hx.NewJobs(rng, pool), hx.NewNames(rng, pool)
	if rng.Intn(2) == 0 { // names whose keys coincide after sanitizing
		jn, en = hx.NewNames(rng, []string{"a", "a b", "a_b", "a.b", "b", "success", "a/b", "a.error", "a:b", "a.b.b"}), hx.NewNames(rng, []string{"a", "a b", "a_b", "b", "b.b", "b.success", "success", "a/b", "a.error", "error", "panic", "aéb", "a-b"})
	}
	log := func(e hx.Ev) {
		mu.Lock()
		e["posts"] = posts
		if posts == nil {
			e["posts"] = []hx.Ev{}
		}
		posts = nil
		mu.Unlock()
		r.Log(e)
	}
	outstanding := 0
	chain := make(chan func(), 1000)
	go func() {
		for f := range chain {
			f()
			mu.Lock()
			outstanding--
			mu.Unlock()
		}
	}()
	if !slow && rng.Intn(60) == 0 {
		// more names in a period than anything may be limited to
		one := rng.Intn(5)
		for i, n := 0, []int{60, 150, 520}[rng.Intn(3)]; i < n; i++ {
			k, ev := []string{"event", "err", "timing", "gauge"}[rng.Intn(4)], fmt.Sprint("n", i)
			if one < 4 { // all of a kind
				k = []string{"event", "err", "timing", "gauge"}[one]
			}
			switch k {
			case "event":
				sink.EmitEvent("many", ev, nil)
			case "err":
				sink.EmitEventErr("many", ev, errors.New("x"), nil)
			case "timing":
				sink.EmitTiming("many", ev, 3*tu, nil)
			case "gauge":
				sink.EmitGauge("many", ev, 3*gu, nil)
			}
			synctest.Wait()
			log(hx.Ev{"op": "rec", "r": hx.Ev{"san": san, "k": k, "job": "many", "ev": ev, "v": 3, "n": 1, "alt": false}})
		}
	}
	for i, o := range sc.Ops {
		o, i := o, i
		var f func()
		job, v := jn.Get(o.S("job")), o.I("v")
		kvs := map[string]string{"k": "v"}
		if i%2 == 0 {
			kvs = nil
		}
		switch o.S("op") {
		case "rec":
			f = func() {
				e := hx.Ev{"san": san, "k": o.S("k"), "job": runes(job), "v": v, "n": 1, "alt": false}
				if o.S("k") == "complete" {
					e["st"] = o.S("st")
				} else {
					e["ev"] = runes(en.Get(o.S("ev")))
				}
				switch o.S("k") {
				case "event":
					sink.EmitEvent(job, en.Get(o.S("ev")), kvs)
				case "err":
					sink.EmitEventErr(job, en.Get(o.S("ev")), errors.New("x"), kvs)
				case "timing":
					sink.EmitTiming(job, en.Get(o.S("ev")), int64(v)*tu, kvs)
				case "gauge":
					sink.EmitGauge(job, en.Get(o.S("ev")), float64(v)*gu, kvs)
				case "complete":
					sink.EmitComplete(job, statuses[o.S("st")], int64(v)*tu, kvs)
				}
				log(hx.Ev{"op": "rec", "r": e})
			}
		case "burst":
			f = func() {
				name := fmt.Sprint("burst", i)
				kind, bv := []string{"event", "err", "timing", "gauge"}[rng.Intn(4)], rng.Intn(20)
				alt, sign := rng.Intn(2) == 0, 1
				for k := 0; k < o.I("n"); k++ {
					if alt && k > 0 {
						sign = -sign
					}
					switch kind {
					case "event":
						sink.EmitEvent(job, name, kvs)
					case "err":
						sink.EmitEventErr(job, name, errors.New("x"), kvs)
					case "timing":
						sink.EmitTiming(job, name, int64(sign*bv)*tu, kvs)
					case "gauge":
						sink.EmitGauge(job, name, float64(sign*bv)*gu, kvs)
					}
				}
				log(hx.Ev{"op": "rec", "r": hx.Ev{"san": san, "k": kind, "job": runes(job), "ev": name, "v": bv, "n": o.I("n"), "alt": alt}})
			}
		case "script":
			mu.Lock()
			script = o.S("out")
			mu.Unlock()
			continue
		case "adv":
			time.Sleep(time.Duration(o.I("dt")) * time.Second)
			synctest.Wait()
			if !slow {
				log(hx.Ev{"op": "adv", "dt": o.I("dt")})
			}
			continue
		}
		mu.Lock()
		outstanding++
		mu.Unlock()
		chain <- f
		synctest.Wait()
	}
	time.Sleep(time.Hour)
	synctest.Wait()
	mu.Lock()
	left, un := outstanding, 0
	for _, b := range bodies {
		if !b.IsReleased() {
			un++
		}
	}
	mu.Unlock()
	log(hx.Ev{"op": "settle", "blocked": left, "unreleased": un})
	close(chain)
	hx.Call(sink.Stop)
}
