// Package hd drives healthd: real polling sinks behind a scripted transport
// are the monitored hosts, and the HTTP API is queried through its handler.
package hd

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/braintree/manners"
	"github.com/gocraft/health"
	"github.com/gocraft/health/healthd"
	"verif/hx"
)

var statuses = map[string]health.CompletionStatus{"success": health.Success, "validation_error": health.ValidationError, "panic": health.Panic, "error": health.Error, "junk": health.Junk}

type host struct {
	id    int
	addr  string
	d     time.Duration
	keep  int
	zone  int
	sink  *health.JsonPollingSink
	inst  string
	ninst int
	mode  string
	delay string
	prev  string // last good answer logged
	nojob bool   // answers with totals only
	// a process that cannot be told from the one before it (the only one of a container, say):
	// its serial numbers start anew, here at less than what was seen before
	again bool
	soff  int64
	rng   *rand.Rand
}

type run struct {
	sc     *hx.Scenario
	rng    *rand.Rand
	r      *hx.Rec
	mu     sync.Mutex
	hosts  []*host
	byAddr map[string]*host
	proj   *hx.Proj
	t0     time.Time
	vu     int64
	zones  string
	early  bool // answers are composed when asked for, not when given
	stop   bool
	srv    *manners.GracefulServer
	self   *selfSink
	ctype  string // content type of the last answer
}

func (x *run) ms(t time.Time) int64 {
	if t.IsZero() {
		return -1
	}
	return hx.Unit(int64(t.Sub(x.t0)), int64(time.Millisecond))
}
func (x *run) now() int64 { return int64(time.Since(x.t0) / time.Millisecond) }

func (x *run) newSink(h *host) {
	if h.sink != nil {
		hx.Call(h.sink.ShutdownServer)
	}
	if h.again && h.sink != nil && h.rng.Intn(2) == 0 {
		h.soff -= 100000
		h.sink = health.NewJsonPollingSink(h.d, h.d*time.Duration(h.keep))
		return
	}
	h.ninst++
	h.inst = fmt.Sprintf("inst-%d-%d", h.id, h.ninst)
	if x.zones == "sameinst" { // instances are only told apart together with the host
		h.inst = fmt.Sprintf("inst-%d", h.ninst)
	}
	h.sink = health.NewJsonPollingSink(h.d, h.d*time.Duration(h.keep))
}

const (
	stepRead   = "poll.ioutil.read_all"
	stepDecode = "poll.json.unmarshall"
	stepUse    = "poll.validate"
)

var zoneMins = []int{0, 120, -330, 345, 840, -720, 60}

// body is what the host would answer if it is well.
func (x *run) body(h *host) (map[string]interface{}, bool) {
	rec := httptest.NewRecorder()
	req, _ := http.NewRequest("GET", "/health", nil)
	h.sink.ServeHTTP(rec, req)
	dec := json.NewDecoder(bytes.NewReader(rec.Body.Bytes()))
	dec.UseNumber()
	var m map[string]interface{}
	if dec.Decode(&m) != nil {
		return nil, false
	}
	m["instance_id"] = h.inst
	zone := zoneMins[h.zone%len(zoneMins)]
	if x.zones == "answer" {
		zone = zoneMins[h.rng.Intn(len(zoneMins))]
	}
	for _, a := range list(m["aggregations"]) {
		am, ok := a.(map[string]interface{})
		if !ok {
			return nil, false
		}
		s, _ := am["interval_start"].(string)
		t, err := time.Parse(time.RFC3339Nano, s)
		if err != nil {
			return nil, false
		}
		if n, is := am["serial_number"].(json.Number); is && h.again {
			v, _ := n.Int64()
			am["serial_number"] = json.Number(fmt.Sprint(v + 10000000 + h.soff))
		}
		if h.nojob {
			am["jobs"] = map[string]interface{}{}
		}
		am["interval_start"] = t.In(time.FixedZone("", zone*60)).Format(time.RFC3339Nano)
		if zone == 0 && h.rng.Intn(2) == 0 {
			am["interval_start"] = strings.Replace(t.UTC().Format(time.RFC3339Nano), "Z", "+00:00", 1)
		}
	}
	return m, true
}

func list(v interface{}) []interface{} { l, _ := v.([]interface{}); return l }
func obj(v interface{}) map[string]interface{} {
	m, _ := v.(map[string]interface{})
	return m
}

// spoil turns a good answer into a bad one.
func (h *host) spoil(kind string, m map[string]interface{}) string {
	aggs := list(m["aggregations"])
	last := map[string]interface{}{}
	if len(aggs) > 0 {
		last = obj(aggs[len(aggs)-1])
	}
	text := func() string { b, _ := json.Marshal(m); return string(b) }
	x := hx.Pick(h.rng, []string{"x", "x", "", "poll"})
	job := func() map[string]interface{} {
		return map[string]interface{}{"events": map[string]interface{}{}, "timers": map[string]interface{}{}, "event_errs": map[string]interface{}{}, "gauges": map[string]interface{}{}, "count": 1, "nanos_sum": 1}
	}
	switch kind {
	case "trunc":
		s := text()
		return s[:1+h.rng.Intn(len(s)-1)]
	case "trail":
		return text() + hx.Pick(h.rng, []string{"}", "x", "{}", "]", ",", "\x00", "0", "null", "\n<!-- served by proxy -->"})
	case "empty":
		return ""
	case "garbage":
		return hx.Pick(h.rng, []string{"<html>busy</html>", "OK", "{", "}", "{\"instance_id\":", "%", "\x00\x01", "{}{}", "[1,2", "nul"})
	case "null":
		return hx.Pick(h.rng, []string{"null", "{}", "{\"instance_id\":\"x\"}", "{\"aggregations\":[]}", "{\"interval_duration\":null}"})
	case "array":
		return hx.Pick(h.rng, []string{"[]", "\"str\"", "7", "true", "[{}]"})
	case "wrongtype":
		switch h.rng.Intn(5) {
		case 0:
			m["interval_duration"] = "60s"
		case 1:
			m["aggregations"] = "none"
		case 2:
			m["instance_id"] = 7
		case 3:
			last["jobs"] = []int{1}
			if len(aggs) == 0 {
				m["aggregations"] = 3
			}
		case 4:
			last["serial_number"] = "x"
			if len(aggs) == 0 {
				m["aggregations"] = map[string]int{}
			}
		}
	case "badstart":
		last["interval_start"] = hx.Pick(h.rng, []string{"yesterday", "", "2000-13-41T00:00:00Z", "0"})
		if len(aggs) == 0 {
			m["aggregations"] = []interface{}{map[string]interface{}{"interval_start": "nope"}}
		}
	case "zerodur":
		m["interval_duration"] = 0
	case "negdur":
		m["interval_duration"] = -60000000000
	case "nullagg":
		m["aggregations"] = append(aggs, nil)
	case "nulljob":
		last["jobs"] = map[string]interface{}{x: nil}
		if len(aggs) == 0 {
			m["aggregations"] = []interface{}{nil}
		}
	case "nulltimer":
		if h.rng.Intn(2) == 0 {
			last["timers"] = map[string]interface{}{x: nil}
		} else {
			j := job()
			j["timers"] = map[string]interface{}{x: nil}
			last["jobs"] = map[string]interface{}{hx.Pick(h.rng, []string{"x", ""}): j}
		}
		if len(aggs) == 0 {
			m["aggregations"] = []interface{}{nil}
		}
	case "nullerr":
		if h.rng.Intn(2) == 0 {
			last["event_errs"] = map[string]interface{}{x: nil}
		} else {
			j := job()
			j["event_errs"] = map[string]interface{}{x: nil}
			last["jobs"] = map[string]interface{}{hx.Pick(h.rng, []string{"x", ""}): j}
		}
		if len(aggs) == 0 {
			m["aggregations"] = []interface{}{nil}
		}
	}
	return text()
}

// padded is the same object, sometimes a large body.
func padded(s string, rng *rand.Rand) string {
	if rng.Intn(40) > 0 {
		return s
	}
	n := []int{70000, 70000, 300000, 300000, 1200000, 1200000, 5000000}[rng.Intn(7)]
	switch rng.Intn(3) {
	case 0: // insignificant space
		return s[:len(s)-1] + strings.Repeat(" ", n) + "}"
	case 1: // a field nobody knows, first
		return `{"zz":"` + strings.Repeat("y", n) + `",` + s[1:]
	}
	return s + strings.Repeat("\n", n)
}

func prune(m map[string]interface{}, rng *rand.Rand) {
	for _, k := range []string{"events", "event_errs", "gauges", "timers", "jobs"} {
		if _, has := m[k]; has && len(obj(m[k])) == 0 {
			if rng.Intn(2) == 0 {
				delete(m, k)
			} else {
				m[k] = nil
			}
		}
	}
}

// stallBody answers nothing until the request is given up.
type stallBody struct {
	ctx  context.Context
	done func()
	once sync.Once
	head string
}

func (b *stallBody) Read(p []byte) (int, error) {
	if b.head != "" {
		n := copy(p, b.head)
		b.head = b.head[n:]
		return n, nil
	}
	<-b.ctx.Done()
	b.once.Do(b.done)
	return 0, b.ctx.Err()
}
func (b *stallBody) Close() error { return nil }

func (x *run) delayOf(h *host) time.Duration {
	base := 1
	switch h.delay {
	case "mid":
		base = 1500
	case "late":
		base = 2150
	case "later":
		base = 4500
	case "slow":
		base = 6000
	}
	return time.Duration(base+h.id) * time.Millisecond
}

func (x *run) serve(req *http.Request, _ []byte) (*http.Response, error) {
	x.mu.Lock()
	h := x.byAddr[req.URL.Host]
	ok := h != nil && req.URL.Path == "/health" && req.Method == "GET"
	if !ok {
		x.mu.Unlock()
		x.r.Log(hx.Ev{"op": "strange", "what": req.Method + " " + req.URL.String()})
		return nil, errors.New("no such host")
	}
	pt := x.now()
	x.r.Log(hx.Ev{"op": "poll", "h": h.id, "t": pt})
	mode, d := h.mode, x.delayOf(h)
	ctx := req.Context()
	m, fine := x.body(h)
	inst, hostd := h.inst, h.d
	x.mu.Unlock()
	answered := func(e hx.Ev) {
		e["op"], e["h"], e["t"], e["pt"] = "answer", h.id, x.now(), pt
		for k, v := range map[string]interface{}{"code": 0, "good": false, "err": "yes", "step": "poll.client.get", "inst": []string{""}, "dur": []int64{0}, "aggs": []hx.Ev{}, "same": false} {
			if _, has := e[k]; !has {
				e[k] = v
			}
		}
		x.r.Log(e)
	}
	select {
	case <-time.After(d):
	case <-ctx.Done():
		answered(hx.Ev{})
		return nil, ctx.Err()
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	if !x.early {
		m, fine = x.body(h)
		inst, hostd = h.inst, h.d
	}
	if !fine {
		x.r.Log(hx.Ev{"op": "strange", "what": "the sink of host " + h.addr + " answers nonsense"})
		return nil, errors.New("nonsense")
	}
	reply := func(code int, s string) (*http.Response, error) {
		return hx.Response(code, hx.NewBody(s, -1)), nil
	}
	dur := hx.Unit(int64(hostd), int64(time.Millisecond))
	good := func(code int) (*http.Response, error) {
		b, _ := json.Marshal(m)
		e := hx.Ev{"code": code, "good": code == 200, "err": "no", "inst": []string{inst}, "dur": []int64{dur}, "step": ""}
		aggs := x.proj.JAggs(m["aggregations"])
		if code != 200 { // not used
			e["inst"], e["dur"] = []string{"", inst}, []int64{0, dur}
		} else if k, _ := json.Marshal([]interface{}{inst, aggs}); string(k) == h.prev {
			e["same"] = true
		} else {
			e["aggs"] = aggs
			h.prev = string(k)
		}
		answered(e)
		return reply(code, padded(string(b), h.rng))
	}
	anyEv := hx.Ev{"inst": []string{}, "dur": []int64{}} // not judged
	switch mode {
	case "ok":
		return good(200)
	case "nomaps": // empty maps left out: still the same data
		for _, a := range list(m["aggregations"]) {
			prune(obj(a), h.rng)
			for _, j := range obj(obj(a)["jobs"]) {
				prune(obj(j), h.rng)
			}
		}
		return good(200)
	case "noaggs": // nothing retained
		m["aggregations"] = []interface{}{}
		return good(200)
	case "refused":
		answered(hx.Ev{})
		return nil, errors.New("connection refused")
	case "code":
		return good([]int{500, 404, 201, 204, 503, 401}[h.rng.Intn(6)])
	case "codetext":
		c := []int{500, 404, 502}[h.rng.Intn(3)]
		answered(hx.Ev{"code": c, "step": stepDecode})
		return reply(c, hx.Pick(h.rng, []string{"boom", "", "{\"error\"", "not_found"}))
	case "readerr":
		b, _ := json.Marshal(m)
		answered(hx.Ev{"code": 200, "step": stepRead})
		return hx.Response(200, hx.NewBody(string(b), h.rng.Intn(len(b)))), nil
	case "slowbody":
		b, _ := json.Marshal(m)
		return hx.Response(200, &stallBody{ctx: ctx, head: string(b[:h.rng.Intn(len(b))]), done: func() { answered(hx.Ev{"code": 200, "step": stepRead}) }}), nil
	}
	anyEv["code"], anyEv["step"] = 200, stepDecode
	switch mode {
	case "null", "zerodur", "negdur", "nullagg", "nulljob", "nulltimer", "nullerr":
		anyEv["step"] = stepUse
	}
	answered(anyEv)
	return reply(200, h.spoil(mode, m))
}

// selfSink hears what healthd records about its own work.
type selfSink struct {
	x  *run
	mu sync.Mutex
	rq []hx.Ev // of the request under way
	// what the errors recorded so far say
	texts map[string]bool
	quiet bool // listen only
}

func (s *selfSink) note(m, job, ev, st string, nanos int64, kvs map[string]string) {
	if s.quiet {
		return
	}
	e := hx.Ev{"op": "self", "m": m, "job": hx.Lat(job), "ev": hx.Lat(ev), "st": st, "ms": hx.Unit(nanos, int64(time.Millisecond)), "kv": hx.LatMap(kvs), "h": 0}
	if h := s.x.byAddr[kvs["host_port"]]; h != nil {
		e["h"] = h.id
		delete(e["kv"].(map[string]string), "host_port")
	}
	if job != "poll" && job != "recalculate" {
		s.mu.Lock()
		s.rq = append(s.rq, e)
		s.mu.Unlock()
		return
	}
	s.x.r.Log(e)
}
func (s *selfSink) said(text string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.texts[text]
}
func (s *selfSink) take() []hx.Ev {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.rq
	s.rq = nil
	return append([]hx.Ev{}, l...)
}
func (s *selfSink) EmitEvent(job, ev string, kvs map[string]string) {
	s.note("event", job, ev, "", 0, kvs)
}
func (s *selfSink) EmitEventErr(job, ev string, err error, kvs map[string]string) {
	s.mu.Lock()
	if s.texts == nil {
		s.texts = map[string]bool{}
	}
	s.texts[err.Error()] = true
	s.mu.Unlock()
	s.note("err", job, ev, "", 0, kvs)
}
func (s *selfSink) EmitTiming(job, ev string, n int64, kvs map[string]string) {
	s.note("timing", job, ev, "", n, kvs)
}
func (s *selfSink) EmitGauge(job, ev string, v float64, kvs map[string]string) {
	s.note("gauge", job, ev, "", 0, kvs)
}
func (s *selfSink) EmitComplete(job string, st health.CompletionStatus, n int64, kvs map[string]string) {
	s.note("complete", job, "", st.String(), n, kvs)
}

// get queries the API at this instant.
func (x *run) get(target string) (int, []byte, bool) {
	u, err := url.Parse(target)
	if err != nil {
		panic("harness: " + err.Error())
	}
	rec := httptest.NewRecorder()
	req := &http.Request{Method: "GET", URL: u, Header: http.Header{}, Host: "hd", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RequestURI: target}
	req = req.WithContext(context.Background())
	if !hx.Call(func() { x.srv.Handler.ServeHTTP(rec, req) }) {
		return 0, nil, false
	}
	x.ctype = rec.Header().Get("Content-Type")
	return rec.Code, rec.Body.Bytes(), true
}

func decode(b []byte) (map[string]interface{}, bool) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var m map[string]interface{}
	if dec.Decode(&m) != nil || m == nil {
		return nil, false
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, false
	}
	return m, true
}

func jint(v interface{}, unit int64) int64 {
	n, ok := v.(json.Number)
	if !ok {
		return hx.Bad
	}
	i, err := n.Int64()
	if err != nil {
		return hx.Bad
	}
	return hx.Unit(i, unit)
}

func (x *run) jtime(v interface{}) int64 {
	s, _ := v.(string)
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		return hx.Bad
	}
	return x.ms(t)
}

func jstr(v interface{}) string {
	s, ok := v.(string)
	if !ok {
		return "?"
	}
	return hx.Lat(s)
}

func (x *run) common(m map[string]interface{}, e hx.Ev) {
	e["id"] = jstr(m["instance_id"])
	e["dur"] = jint(m["interval_duration"], int64(time.Millisecond))
	e["json"] = isJSON(x.ctype)
}

func isJSON(ctype string) bool {
	t, _, err := mime.ParseMediaType(ctype)
	return err == nil && t == "application/json"
}

func (x *run) aggregations() hx.Ev {
	c, b, ok := x.get("/healthd/aggregations")
	m, wf := decode(b)
	e := hx.Ev{"back": ok, "code": c, "ok": wf, "list": x.proj.JAggs(m["aggregations"])}
	_, has := m["aggregations"]
	e["ok"] = wf && has
	x.common(m, e)
	return e
}

func (x *run) overall() hx.Ev {
	c, b, ok := x.get("/healthd/aggregations/overall")
	m, wf := decode(b)
	_, has := m["overall"]
	e := hx.Ev{"back": ok, "code": c, "ok": wf && has, "has": obj(m["overall"]) != nil, "agg": x.proj.JAgg(m["overall"])}
	x.common(m, e)
	return e
}

func (x *run) row(v interface{}) hx.Ev {
	m := obj(v)
	tm := x.proj.JTimer(m)
	n := tm["c"].(int64)
	num := func(k string) float64 {
		f, ok := m[k].(json.Number)
		if !ok {
			return math.NaN()
		}
		r, err := f.Float64()
		if err != nil {
			return math.NaN()
		}
		return r
	}
	avg, sd := num("nanos_avg"), num("nanos_std_dev")
	u := float64(x.vu)
	e := hx.Ev{"n": jstr(m["name"]), "tm": tm, "st": x.proj.JSt(m), "avgc": hx.UnitF(avg*float64(n), u), "vr": int64(hx.Bad)}
	if n == 0 {
		e["avgc"] = hx.UnitF(avg, u)
	}
	if n < 2 {
		if sd == 0 {
			e["vr"] = int64(0)
		}
	} else {
		q := sd * sd * float64(n) * float64(n-1) / u / u
		if r := math.Round(q); math.Abs(q-r) < 0.01+1e-9*math.Abs(q) && r < 2e9 {
			e["vr"] = int64(r)
		}
	}
	return e
}

// jobs queries the jobs; rk gives the order of names and of deviations.
func (x *run) jobs(query string, rk map[string][2]int) hx.Ev {
	c, b, ok := x.get("/healthd/jobs" + query)
	m, wf := decode(b)
	_, has := m["jobs"]
	rows := []hx.Ev{}
	for _, j := range list(m["jobs"]) {
		rows = append(rows, x.row(j))
	}
	e := hx.Ev{"back": ok, "code": c, "ok": wf && has, "rows": rows}
	x.common(m, e)
	if len(rk) == 0 && query == "" {
		var names []string
		var sds []float64
		sdOf := map[string]float64{}
		for _, j := range list(m["jobs"]) {
			n := jstr(obj(j)["name"])
			raw, _ := obj(j)["name"].(string)
			f, _ := obj(j)["nanos_std_dev"].(json.Number)
			v, _ := f.Float64()
			names, sds = append(names, raw), append(sds, v)
			sdOf[n] = v
		}
		sort.Strings(names)
		sort.Float64s(sds)
		for i, raw := range names {
			n := hx.Lat(raw)
			rk[n] = [2]int{i, sort.SearchFloat64s(sds, sdOf[n])}
		}
	}
	for _, row := range rows {
		r, found := rk[row["n"].(string)]
		if !found {
			r = [2]int{-1, -1}
		}
		row["rn"], row["rs"] = r[0], r[1]
	}
	return e
}

var columns = []string{"name", "count", "count_success", "count_validation_error", "count_panic", "count_error", "count_junk", "total_time", "avg", "min", "max", "stddev"}

type lim struct {
	s string
	n int
}

var limits = []lim{{"", 0}, {"0", 0}, {"-1", 0}, {"1", 1}, {"2", 2}, {"3", 3}, {"1000", 1000}, {"abc", 0}, {"2x", 0}, {"1e3", 0}, {" 2", 0}, {"0x10", 0},
	{"99999999999999999999", 0}, {"-99999999999999999999", 0}, {"2147483648", 2000000000}, {"9223372036854775807", 2000000000}, {"-9223372036854775808", 0}, {"4294967297", 2000000000}, {"007", 7}, {"1.5", 0}, {"٣", 0}, {"0x1", 0}, {"0b1", 0}, {"0o2", 0}, {"1_0", 0}, {"+1", 1}, {"9", 9}, {"10", 10}, {"12", 12}, {"19", 19}, {"08", 8}, {"33", 33}, {"64", 64}, {"100", 100}}

func (x *run) hostList() hx.Ev {
	c, b, ok := x.get("/healthd/hosts")
	m, wf := decode(b)
	_, has := m["hosts"]
	rows := []hx.Ev{}
	for _, v := range list(m["hosts"]) {
		o := obj(v)
		id := 0
		if a, isS := o["host_port"].(string); isS && x.byAddr[a] != nil {
			id = x.byAddr[a].id
		}
		er, isS := o["last_err"].(string)
		says := map[bool]string{true: "yes", false: "no"}[er != "" || !isS]
		if er != "" && x.self != nil && !x.self.said(er) {
			says = "something else"
		}
		rows = append(rows, hx.Ev{"h": id, "check": x.jtime(o["last_check_time"]), "inst": jstr(o["last_instance_id"]), "dur": jint(o["last_interval_duration"], int64(time.Millisecond)),
			"err": says, "code": jint(o["last_code"], 1), "ms": jint(o["last_nanos"], int64(time.Millisecond)), "first": x.jtime(o["first_successful_response"]), "last": x.jtime(o["last_successful_response"])})
	}
	e := hx.Ev{"back": ok, "code": c, "ok": wf && has, "rows": rows}
	x.common(m, e)
	return e
}

var noPaths = []string{"/", "/healthd", "/healthd/foo", "/healthd/jobs/x", "/aggregations", "/jobs", "/healthdx/jobs", "/healthd/aggregations/overall/x", "/healthd/host", "/healthd/HOSTS", "/favicon.ico", "/healthd/overall"}

func (x *run) query() {
	e := hx.Ev{"op": "query", "t": x.now()}
	e["agg"] = x.aggregations()
	switch x.sc.Kind {
	case "C19":
		e["overall"] = x.overall()
		rk := map[string][2]int{}
		e["jobs"] = x.jobs("", rk)
		more := []hx.Ev{}
		for i := 0; i < 6; i++ {
			col, l := hx.Pick(x.rng, columns), limits[x.rng.Intn(len(limits))]
			sorted := true
			switch x.rng.Intn(8) {
			case 2:
				if x.sc.Cfg.B("small") {
					col, l = "avg", limits[0]
				}
			case 0:
				col, sorted = hx.Pick(x.rng, []string{"", "NAME", "nope", "count_", "nanos_sum", "avg ", "name,count", "-count", "%"}), false
			case 1:
				l = limits[0]
			}
			v := url.Values{}
			if col != "" {
				v.Set("sort", col)
			}
			if l.s != "" {
				v.Set("limit", l.s)
			}
			j := x.jobs("?"+v.Encode(), rk)
			j["col"], j["lim"] = col, l.n
			if !sorted {
				j["col"] = "none"
			}
			more = append(more, j)
		}
		e["more"] = more
		paths := []hx.Ev{}
		for i := 0; i < 2; i++ {
			p := hx.Pick(x.rng, noPaths)
			c, b, ok := x.get(p)
			_, wf := decode(b)
			paths = append(paths, hx.Ev{"path": p, "back": ok, "code": c, "ok": wf})
		}
		e["paths"] = paths
	case "C20":
		e["hosts"] = x.hostList()
	case "C22":
		reqs := []hx.Ev{}
		x.self.take()
		for i := 0; i < 4; i++ {
			p := hx.Pick(x.rng, []string{"/healthd/aggregations", "/healthd/aggregations/overall", "/healthd/jobs", "/healthd/hosts", "none"})
			known, target := true, p
			if p == "none" {
				known, p = false, hx.Pick(x.rng, noPaths)
				target = p
			} else if x.rng.Intn(3) == 0 {
				target += "?sort=count&limit=x%20y"
			}
			c, _, ok := x.get(target)
			reqs = append(reqs, hx.Ev{"path": p, "known": known, "code": c, "cs": fmt.Sprint(c), "back": ok, "self": x.self.take()})
		}
		e["reqs"] = reqs
	}
	x.r.Log(e)
}

// storm makes many requests at once, while hosts are polled.
func (x *run) storm() {
	paths := []string{"/healthd/hosts", "/healthd/hosts", "/healthd/aggregations", "/healthd/aggregations/overall", "/healthd/jobs?sort=name&limit=2", "/healthd/jobs?sort=stddev", "/healthd/jobs"}
	var wg sync.WaitGroup
	var bad sync.Map
	var answered int64
	for i := 0; i < 250; i++ {
		wg.Add(1)
		p := paths[i%len(paths)]
		go func() {
			defer wg.Done()
			rec := httptest.NewRecorder()
			req, _ := http.NewRequest("GET", p, nil)
			x.srv.Handler.ServeHTTP(rec, req)
			atomic.AddInt64(&answered, 1)
			m, wf := decode(rec.Body.Bytes())
			if rec.Code != 200 || !wf || !isJSON(rec.Header().Get("Content-Type")) {
				bad.Store(fmt.Sprint(p, " ", rec.Code), true)
			}
			if p == "/healthd/hosts" && len(list(m["hosts"])) != len(x.hosts) {
				bad.Store("hosts missing", true)
			}
		}()
		// polls are made every ten seconds, and answered within milliseconds
		time.Sleep([]time.Duration{0, 0, time.Millisecond, 50 * time.Millisecond, 400 * time.Millisecond}[x.rng.Intn(5)])
	}
	time.Sleep(5 * time.Second)
	what := []string{}
	if n := atomic.LoadInt64(&answered); n != 250 {
		what = append(what, fmt.Sprint("answers: ", n))
	} else {
		wg.Wait()
	}
	bad.Range(func(k, _ interface{}) bool { what = append(what, k.(string)); return true })
	sort.Strings(what)
	x.r.Log(hx.Ev{"op": "storm", "t": x.now(), "bad": what})
}

// slowSink takes its time with recalculations.
type slowSink struct {
	busy chan struct{}
}

func (s *slowSink) EmitEvent(job string, event string, kvs map[string]string) {}
func (s *slowSink) EmitEventErr(job string, event string, err error, kvs map[string]string) {
}
func (s *slowSink) EmitTiming(job string, event string, nanos int64, kvs map[string]string) {}
func (s *slowSink) EmitGauge(job string, event string, value float64, kvs map[string]string) {
}
func (s *slowSink) EmitComplete(job string, st health.CompletionStatus, nanos int64, kvs map[string]string) {
	if job == "recalculate" {
		select {
		case s.busy <- struct{}{}:
		case <-time.After(20 * time.Millisecond):
		}
		time.Sleep(30 * time.Millisecond)
	}
}

// wait returns when the sink has just been told of a recalculation.
func (s *slowSink) wait(d time.Duration) {
	select {
	case <-s.busy:
	case <-time.After(d):
	}
}

// rush makes n requests at once, about when healthd is stopped; it returns
// how many have not been answered properly.
func (x *run) rush(n int, before bool) func() int64 {
	paths := []string{"/healthd/hosts", "/healthd/aggregations", "/healthd/aggregations/overall", "/healthd/jobs"}
	waiting := int64(n)
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		p := paths[x.rng.Intn(len(paths))]
		spin := x.rng.Intn(300)
		go func() {
			<-start
			for j := 0; j < spin; j++ {
				runtime.Gosched()
			}
			rec := httptest.NewRecorder()
			req, _ := http.NewRequest("GET", p, nil)
			x.srv.Handler.ServeHTTP(rec, req)
			if _, wf := decode(rec.Body.Bytes()); wf && rec.Code == 200 && isJSON(rec.Header().Get("Content-Type")) {
				atomic.AddInt64(&waiting, -1)
			}
		}()
	}
	if before {
		synctest.Wait() // let them all be ready
	}
	close(start)
	if before {
		synctest.Wait()
	}
	return func() int64 { return atomic.LoadInt64(&waiting) }
}

var addrPool = []string{"h1:80", "h2:80", "h10:80", "H1:80", "a.example.com:5020", "b:1", "localhost:6050", "10.0.0.1:5020", "10.0.0.2:5020", "9.0.0.1:1", "h1:8080", "z", "[::1]:80", "_x:7"}
var vuPool = []int64{1, 1000, 1000000, 1234567891, 333333333, 1000000007, 17}

// Healthd drives one healthd over a set of hosts.
func Healthd(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	manners.Listen = false
	base := hx.HealthGoroutines()
	x := &run{sc: sc, rng: rng, r: r, byAddr: map[string]*host{}, vu: vuPool[rng.Intn(len(vuPool))], early: rng.Intn(2) == 0}
	if sc.Cfg.B("small") {
		x.vu = 1
	}
	time.Sleep(time.Duration(rng.Intn(100000)) * time.Millisecond)
	x.proj = &hx.Proj{VU: x.vu, T: func(t time.Time) int64 { return x.ms(t) }}
	x.zones = []string{"none", "host", "answer", "sameinst"}[rng.Intn(4)]
	again := rng.Intn(4) == 0
	d := []time.Duration{10 * time.Second, time.Minute, 20 * time.Minute, 50 * time.Minute, 400 * time.Millisecond}[rng.Intn(5)]
	n := 2 + rng.Intn(2)
	grid := sc.Cfg.B("grid") // hosts come and go; all retain five short intervals
	if grid {
		n = 3
		d = []time.Duration{10 * time.Second, 20 * time.Second, time.Minute}[rng.Intn(3)]
	}
	if sc.Cfg.B("odd") {
		n = 3
	}
	many := sc.Cfg.B("many")
	if many {
		n = 66 + rng.Intn(20)
	}
	addrs := hx.Distinct(rng, addrPool, n)
	for i := range addrs {
		if many {
			addrs[i] = fmt.Sprintf("host%d:%d", i*7919%100, i)
		}
	}
	odd := rng.Intn(4) == 0 || sc.Cfg.B("odd")
	var sorted []string
	for i := 0; i < n; i++ {
		h := &host{id: i + 1, addr: addrs[i], d: d, keep: 1 + rng.Intn(5), mode: "ok", delay: "fast", again: again, rng: rand.New(rand.NewSource(rng.Int63()))}
		if grid {
			h.keep = 5
		}
		if odd && !grid && i == n-1 {
			h.d = []time.Duration{30 * time.Second, 25 * time.Minute}[rng.Intn(2)]
		}
		h.nojob = rng.Intn(6) == 0
		if x.zones == "host" {
			h.zone = rng.Intn(len(zoneMins))
		}
		if many && i > 0 {
			h.delay = "late"
		}
		x.hosts = append(x.hosts, h)
		x.byAddr[h.addr] = h
		x.newSink(h)
		sorted = append(sorted, h.addr)
	}
	sort.Strings(sorted)
	order := []int{}
	for _, a := range sorted {
		order = append(order, x.byAddr[a].id)
	}
	synctest.Wait()
	jn, en := hx.NewJobs(rng, hx.UTF8Names), hx.NewNames(rng, hx.UTF8Names)
	if rng.Intn(12) == 0 {
		[]*hx.NameSet{jn, en}[rng.Intn(2)].Long()
	}
	r.SetCfg(hx.Ev{"order": order, "n": n, "id": hx.Lat(health.Identifier), "d": d.String(), "unit": fmt.Sprint(x.vu), "zones": x.zones, "early": x.early})
	tr := hx.InstallTransport()
	tr.Set(x.serve)
	addr := fmt.Sprintf("hd-%s", sc.ID)
	var daemon *healthd.HealthD
	var slow *slowSink
	start := func() bool {
		x.mu.Lock()
		x.t0 = time.Now()
		x.mu.Unlock()
		stream := health.NewStream()
		if rng.Intn(2) == 0 {
			stream.AddSink(&health.WriterSink{Writer: io.Discard})
		}
		if sc.Kind == "C12" && rng.Intn(2) == 0 {
			slow = &slowSink{busy: make(chan struct{})}
			stream.AddSink(slow)
		}
		if sc.Kind == "C22" || sc.Kind == "C20" {
			x.self = &selfSink{x: x, quiet: sc.Kind == "C20"}
			stream.AddSink(x.self)
		}
		ok := hx.Call(func() { daemon = healthd.StartNewHealthD(append([]string{}, addrs...), addr, stream) })
		synctest.Wait()
		srv, err := manners.Lookup(addr)
		if !ok || err != nil || srv.Handler == nil {
			r.Log(hx.Ev{"op": "strange", "what": "healthd does not start"})
			return false
		}
		x.srv = srv
		return true
	}
	x.t0 = time.Now()
	startAt := rng.Intn(len(sc.Ops)/2 + 1)
	if grid || sc.Cfg.B("now") || !sc.Cfg.B("pre") && rng.Intn(3) > 0 {
		startAt = 0
	}
	if sc.Cfg.B("odd") {
		startAt = sc.Cfg.I("start")
	}
	long := 0
	for i, o := range sc.Ops {
		if i == startAt && !start() {
			return
		}
		h := x.hosts[o.I("h")%n]
		switch o.S("op") {
		case "rec":
			job := jn.Get(o.S("job"))
			v := int64(o.I("v")) * x.vu
			s := h.sink
			hx.Call(func() {
				switch o.S("k") {
				case "event":
					s.EmitEvent(job, en.Get(o.S("ev")), nil)
				case "err":
					s.EmitEventErr(job, en.Get(o.S("ev")), errors.New("x"), nil)
				case "timing":
					s.EmitTiming(job, en.Get(o.S("ev")), v, nil)
				case "gauge":
					s.EmitGauge(job, en.Get(o.S("ev")), float64(o.I("v"))+float64(h.id)/8, nil)
				case "complete":
					for k := 0; k < max(1, o.I("n")); k++ {
						s.EmitComplete(job, statuses[o.S("st")], v, nil)
					}
				}
			})
		case "restart":
			x.mu.Lock()
			if !grid && rng.Intn(5) == 0 { // configured differently from now on
				h.d = []time.Duration{d, 15 * time.Second, 30 * time.Minute}[rng.Intn(3)]
			}
			x.newSink(h)
			x.mu.Unlock()
		case "mode":
			x.mu.Lock()
			h.mode = o.S("m")
			x.mu.Unlock()
		case "delay":
			x.mu.Lock()
			h.delay = o.S("d")
			x.mu.Unlock()
		case "adv":
			dt := map[string]time.Duration{"s1": time.Second, "s3": 3100 * time.Millisecond, "s7": 7 * time.Second, "s10": 10 * time.Second, "s13": 13 * time.Second, "i1": d, "i5": 5 * d}[o.S("dt")]
			if daemon != nil && dt > time.Minute {
				if long += int(dt / time.Minute); long > 60 || many {
					dt = 20 * time.Second
				}
			}
			time.Sleep(dt)
		case "q":
			if daemon != nil {
				x.query()
			}
		case "storm":
			if daemon != nil {
				x.storm()
			}
		}
		synctest.Wait()
	}
	if daemon == nil && !start() {
		return
	}
	time.Sleep(9 * time.Second)
	synctest.Wait()
	x.query()
	if sc.Kind == "C12" {
		time.Sleep(time.Duration(rng.Intn(12000)) * time.Millisecond)
		if many || rng.Intn(3) == 0 { // while hosts are being polled
			time.Sleep(time.Duration(10000-x.now()%10000)*time.Millisecond + time.Duration(rng.Intn(2200))*time.Millisecond)
		}
	}
	asked := func() int64 { return 0 }
	if slow != nil && rng.Intn(3) > 0 {
		// while healthd is busy, both requests and the stop have to wait for it
		slow.wait(time.Minute)
	}
	if sc.Kind == "C12" && rng.Intn(4) > 0 {
		asked = x.rush(1+rng.Intn(40), rng.Intn(3) > 0)
	}
	r.Log(hx.Ev{"op": "stopcall", "t": x.now()})
	ok := hx.Call(daemon.Stop)
	r.Log(hx.Ev{"op": "stopret", "t": x.now(), "back": ok})
	time.Sleep(35 * time.Second)
	synctest.Wait()
	waiting := asked()
	for _, h := range x.hosts {
		hx.Call(h.sink.ShutdownServer)
	}
	synctest.Wait()
	time.Sleep(2 * time.Second)
	synctest.Wait()
	r.Log(hx.Ev{"op": "settle", "t": x.now(), "left": hx.NewLeaks(base), "closed": x.srv.Closed(), "waiting": waiting})
}
