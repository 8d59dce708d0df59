// Package stk drives stack capture through chains of calls of every kind.
package stk

import (
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/gocraft/health/stack"
	"verif/hx"
)

// M executes the operations; every function below takes the next one from it.
type M struct {
	ops  []hx.Op
	i    int
	h    int
	skip int
	r    *hx.Rec
	trs  map[int]*stack.Trace
}

const pkg = "verif/stk"

// at records the position of the call that is about to be made.
func (m *M) at() *M {
	_, file, line, _ := runtime.Caller(1)
	m.r.Log(hx.Ev{"op": "at", "file": file, "line": line})
	return m
}
func (m *M) enter(name string) { m.enterPkg(pkg, name) }
func (m *M) enterPkg(p, name string) {
	m.h++
	m.r.Log(hx.Ev{"op": "enter", "pkg": p, "name": name})
}
func (m *M) leave() {
	m.h--
	m.r.Log(hx.Ev{"op": "leave"})
}
func (m *M) keep(t *stack.Trace) {
	n := len(m.trs) + 1
	m.trs[n] = t
	m.r.Log(hx.Ev{"op": "capture", "t": n, "skip": m.skip, "max": stack.MaxStackDepth})
}

func frames(t *stack.Trace) []hx.Ev {
	out := []hx.Ev{}
	for _, f := range t.Frames() {
		out = append(out, hx.Ev{"file": f.File, "line": f.LineNumber, "pkg": f.Package, "name": f.Name})
	}
	return out
}

func lines(t *stack.Trace) []string {
	s := string(t.Stack())
	if s == "" {
		return []string{}
	}
	if !strings.HasSuffix(s, "\n") {
		return []string{"no final newline"}
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

func (m *M) read(o hx.Op) {
	n := o.I("t")
	t := m.trs[n]
	if t == nil {
		return
	}
	k := o.I("conc")
	res := make([]hx.Ev, k)
	var wg sync.WaitGroup
	for i := 0; i < k; i++ {
		i := i
		wg.Add(1)
		one := func() {
			defer wg.Done()
			if i%2 == 0 {
				res[i] = hx.Ev{"op": "read", "t": n, "frames": frames(t), "text": lines(t)}
			} else {
				tx := lines(t)
				res[i] = hx.Ev{"op": "read", "t": n, "frames": frames(t), "text": tx}
			}
		}
		if k == 1 {
			one()
		} else {
			go one()
		}
	}
	wg.Wait()
	for _, e := range res {
		m.r.Log(e)
	}
}

// loop executes operations until the current function is to return. The
// calls are made by step, a closure of the function itself.
func (m *M) next() hx.Op {
	for m.i < len(m.ops) {
		o := m.ops[m.i]
		m.i++
		switch o.S("op") {
		case "read":
			m.read(o)
			continue
		case "max":
			stack.MaxStackDepth = o.I("n")
			continue
		case "ret":
			if m.h <= 1 {
				continue
			}
		case "capture":
			m.skip = o.I("skip")
		case "call", "deep":
			if m.h > 90 {
				continue
			}
		}
		return o
	}
	return hx.Op{"op": "ret"}
}

func root(m *M) {
	m.enter("root")
	for {
		o := m.next()
		switch o.S("op") + o.S("fn") {
		case "callplain":
			plain(m.at())
		case "callmethod":
			(&T{3}).Method(m.at())
		case "callvalue":
			T{4}.value(m.at())
		case "callclosure":
			closure(m.at())
		case "callgeneric":
			generic[int](m.at())
		case "callhop":
			hop(m.at())
		case "callhop2":
			hop2(m.at(),
				1)
		case "callpan":
			pan(m.at())
		case "calliface":
			I(&T{1}).value(m.at())
		case "calldefer":
			deferred(m.at())
		case "deep":
			deep(m.at(), o.I("n"))
		case "capture":
			m.keep(stack.NewTrace(m.at().skip))
		case "captureleaf":
			leaf(m.at())
		case "captureleaf2":
			leaf2(m.at())
		case "capturetiny":
			m.keepTiny(tleaf(m.at().skip), "tleaf")
		case "capturetiny2":
			m.keepTiny(tleaf2(m.at().skip), "tleaf", "tleaf2")
		case "calltiny":
			tiny(m.at())
		case "calltiny2":
			tiny2(m.at())
		default:
			m.leave()
			return
		}
	}
}

func plain(m *M) {
	m.enter("plain")
	for {
		o := m.next()
		switch o.S("op") + o.S("fn") {
		case "callplain":
			plain(m.at())
		case "callmethod":
			(&T{3}).Method(m.at())
		case "callvalue":
			T{4}.value(m.at())
		case "callclosure":
			closure(m.at())
		case "callgeneric":
			generic[string](m.at())
		case "callhop":
			hop(m.at())
		case "callhop2":
			hop2(m.at(), 1)
		case "callpan":
			pan(m.at())
		case "calliface":
			I(&T{1}).Method(m.at())
		case "calldefer":
			deferred(m.at())
		case "deep":
			deep(m.at(), o.I("n"))
		case "capture":
			m.keep(stack.NewTrace(m.at().skip))
		case "captureleaf":
			leaf(m.at())
		case "captureleaf2":
			leaf2(m.at())
		case "capturetiny":
			m.keepTiny(tleaf(m.at().skip), "tleaf")
		case "capturetiny2":
			m.keepTiny(tleaf2(m.at().skip), "tleaf", "tleaf2")
		case "calltiny":
			tiny(m.at())
		case "calltiny2":
			tiny2(m.at())
		default:
			m.leave()
			return
		}
	}
}

// disp is what most functions share: it runs the operations of the function
// it stands for, so its own frame is part of the chain.
func disp(m *M) {
	m.enter("disp")
	plain(m.at())
	m.leave()
}

type T struct{ n int }
type I interface {
	value(m *M)
	Method(m *M)
}

func (t *T) Method(m *M) {
	m.enter("(*T).Method")
	plain(m.at())
	m.leave()
}

func (t T) value(m *M) {
	m.enter("T.value")
	if t.n > 2 {
		leaf(m.at())
	}
	plain(m.at())
	m.leave()
}

func closure(m *M) {
	m.enter("closure")
	f := func() {
		m.enter("closure.func1")
		plain(m.at())
		m.leave()
	}
	m.at()
	_ = 0
	call(f, m)
	m.leave()
}

//go:noinline
func call(f func(), m *M) {
	// the caller's line of this call is two lines below its at()
	m.r.Log(hx.Ev{"op": "bump", "n": 2})
	m.enter("call")
	m.at()
	func() { m.r.Log(hx.Ev{"op": "bump", "n": 2}) }()
	f()
	m.leave()
}

func generic[X any](m *M) {
	m.enter("generic[...]")
	var x X
	_ = x
	plain(m.at())
	m.leave()
}

func hop(m *M) {
	m.enter("hop")
	disp(m.at())
	m.leave()
}

func hop2(m *M, n int) {
	m.enter("hop2")
	hop(m.at())
	m.leave()
}

func leaf(m *M) {
	m.enter("leaf")
	m.keep(stack.NewTrace(m.at().skip))
	m.leave()
}

func leaf2(m *M) {
	m.enter("leaf2")
	leaf(m.at())
	m.leave()
}

// Functions small enough to be inlined when inlining is on; each is on one line.
func tleaf(skip int) *stack.Trace  { return stack.NewTrace(skip) }
func tleaf2(skip int) *stack.Trace { return tleaf(skip) }
func tiny(m *M)                    { mid(m, 1) }
func tiny2(m *M)                   { tiny(m) }

func lineOf(f interface{}) (string, int) {
	fn := runtime.FuncForPC(reflect.ValueOf(f).Pointer())
	return fn.FileLine(fn.Entry())
}

// keepTiny keeps a capture made by functions (innermost first) that could not
// log themselves.
func (m *M) keepTiny(t *stack.Trace, names ...string) {
	for i := len(names) - 1; i >= 0; i-- {
		file, line := lineOf(map[string]interface{}{"tleaf": tleaf, "tleaf2": tleaf2}[names[i]])
		m.enter(names[i])
		m.r.Log(hx.Ev{"op": "at", "file": file, "line": line})
	}
	m.keep(t)
	for range names {
		m.leave()
	}
}

//go:noinline
func mid(m *M, n int) {
	names := []string{"tiny"}
	if _, _, _, ok := runtime.Caller(2); ok {
		pcs := make([]uintptr, 3)
		fr := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs)])
		fr.Next()
		if f, _ := fr.Next(); f.Function == pkg+".tiny2" {
			names = append(names, "tiny2")
		}
	}
	for i := len(names) - 1; i >= 0; i-- {
		file, line := lineOf(map[string]interface{}{"tiny": tiny, "tiny2": tiny2}[names[i]])
		m.enter(names[i])
		m.r.Log(hx.Ev{"op": "at", "file": file, "line": line})
	}
	m.enter("mid")
	plain(m.at())
	m.leave()
	for range names {
		m.leave()
	}
}

func deep(m *M, n int) {
	m.enter("deep")
	if n > 0 {
		deep(m.at(), n-1)
	} else {
		plain(m.at())
	}
	m.leave()
}

func deferred(m *M) {
	m.enter("deferred")
	defer func() {
		m.leave()
	}()
	plain(m.at())
}

// gopanicAt finds the runtime frame that runs deferred calls of a panic.
func gopanicAt() (string, int) {
	pcs := make([]uintptr, 10)
	fr := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs)])
	f, _ := fr.Next()
	if f.Function != "runtime.gopanic" {
		panic("harness: expected runtime.gopanic, found " + f.Function)
	}
	return f.File, f.Line
}

func pan(m *M) {
	m.enter("pan")
	defer func() {
		recover()
		file, line := gopanicAt()
		m.enterPkg("runtime", "gopanic")
		m.r.Log(hx.Ev{"op": "at", "file": file, "line": line})
		m.enter("pan.func1")
		plain(m.at())
		m.leave()
		m.leave()
		m.leave()
	}()
	panic(m.at())
}

func own() []hx.Ev {
	pcs := make([]uintptr, 100)
	fr := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs)])
	out := []hx.Ev{}
	for {
		f, more := fr.Next()
		p, n := "", f.Function
		if i := strings.LastIndex(n, "/"); i >= 0 {
			p, n = n[:i+1], n[i+1:]
		}
		if i := strings.Index(n, "."); i >= 0 {
			p, n = p+n[:i], n[i+1:]
		}
		out = append(out, hx.Ev{"file": f.File, "line": f.Line, "pkg": p, "name": n})
		if !more {
			return out
		}
	}
}

// Stack runs one scenario in its own goroutine.
func Stack(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	stack.MaxStackDepth = 50
	m := &M{ops: sc.Ops, r: r, trs: map[int]*stack.Trace{}}
	done := make(chan bool)
	go func() {
		defer close(done)
		base := own()
		base[0]["line"] = base[0]["line"].(int) + 3
		r.SetCfg(hx.Ev{"base": base})
		root(m)
	}()
	<-done
	for n := range m.trs { // once more, long after the calls returned
		m.read(hx.Op{"t": float64(n), "conc": float64(1)})
	}
}
