// Package web is an offline stand-in for github.com/gocraft/web (which is not
// installed here): the subset of its router that an API server such as healthd
// can reasonably use, with the same observable routing behaviour.
package web

import (
	"bufio"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"strings"
)

// ResponseWriter is what handlers write to.
type ResponseWriter interface {
	http.ResponseWriter
	http.Flusher
	StatusCode() int
	Written() bool
	Size() int
}

type appResponseWriter struct {
	http.ResponseWriter
	statusCode int
	size       int
}

func (w *appResponseWriter) Write(b []byte) (int, error) {
	if w.statusCode == 0 {
		w.statusCode = http.StatusOK
	}
	n, err := w.ResponseWriter.Write(b)
	w.size += n
	return n, err
}

func (w *appResponseWriter) WriteHeader(code int) {
	w.statusCode = code
	w.ResponseWriter.WriteHeader(code)
}

func (w *appResponseWriter) StatusCode() int { return w.statusCode }
func (w *appResponseWriter) Written() bool   { return w.statusCode != 0 }
func (w *appResponseWriter) Size() int       { return w.size }
func (w *appResponseWriter) Flush() {
	if f, ok := w.ResponseWriter.(http.Flusher); ok {
		f.Flush()
	}
}
func (w *appResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	h, ok := w.ResponseWriter.(http.Hijacker)
	if !ok {
		return nil, nil, fmt.Errorf("the ResponseWriter doesn't support the Hijacker interface")
	}
	return h.Hijack()
}

// Request wraps the http request.
type Request struct {
	*http.Request
	PathParams map[string]string
	route      *route
}

func (r *Request) IsRouted() bool { return r.route != nil }
func (r *Request) RoutePath() string {
	if r.route != nil {
		return r.route.path
	}
	return ""
}

type NextMiddlewareFunc func(ResponseWriter, *Request)
type GenericMiddleware func(ResponseWriter, *Request, NextMiddlewareFunc)
type GenericHandler func(ResponseWriter, *Request)

type fn struct {
	v       reflect.Value
	withCtx bool
}

type route struct {
	method string
	path   string
	segs   []string
	router *Router
	h      fn
}

type Router struct {
	parent   *Router
	root     *Router
	prefix   string
	ctxType  reflect.Type
	mws      []fn
	routes   []*route // root only
	notFound *fn
	onError  *fn
}

func New(ctx interface{}) *Router { return NewWithPrefix(ctx, "") }

func NewWithPrefix(ctx interface{}, prefix string) *Router {
	r := &Router{prefix: prefix, ctxType: reflect.TypeOf(ctx)}
	r.root = r
	return r
}

func (r *Router) Subrouter(ctx interface{}, prefix string) *Router {
	t := reflect.TypeOf(ctx)
	if t != r.ctxType {
		if t.Kind() != reflect.Struct || t.NumField() == 0 || t.Field(0).Type != reflect.PtrTo(r.ctxType) {
			panic("the subrouter's context must have a pointer to its parent's context as its first field")
		}
	}
	return &Router{parent: r, root: r.root, prefix: r.prefix + prefix, ctxType: t}
}

func (r *Router) toFn(v interface{}) fn {
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Func {
		panic("handlers must be functions")
	}
	t := rv.Type()
	return fn{v: rv, withCtx: t.NumIn() > 0 && t.In(0) == reflect.PtrTo(r.ctxType)}
}

func (r *Router) Middleware(f interface{}) *Router { r.mws = append(r.mws, r.toFn(f)); return r }
func (r *Router) NotFound(f interface{}) *Router   { x := r.toFn(f); r.notFound = &x; return r }
func (r *Router) Error(f interface{}) *Router      { x := r.toFn(f); r.onError = &x; return r }

func (r *Router) Get(p string, f interface{}) *Router     { return r.add("GET", p, f) }
func (r *Router) Post(p string, f interface{}) *Router    { return r.add("POST", p, f) }
func (r *Router) Put(p string, f interface{}) *Router     { return r.add("PUT", p, f) }
func (r *Router) Delete(p string, f interface{}) *Router  { return r.add("DELETE", p, f) }
func (r *Router) Patch(p string, f interface{}) *Router   { return r.add("PATCH", p, f) }
func (r *Router) Head(p string, f interface{}) *Router    { return r.add("HEAD", p, f) }
func (r *Router) Options(p string, f interface{}) *Router { return r.add("OPTIONS", p, f) }

func split(p string) []string {
	p = strings.TrimPrefix(p, "/")
	p = strings.TrimSuffix(p, "/")
	if p == "" {
		return nil
	}
	return strings.Split(p, "/")
}

func (r *Router) add(method, path string, f interface{}) *Router {
	full := r.prefix + path
	r.root.routes = append(r.root.routes, &route{method: method, path: full, segs: split(full), router: r, h: r.toFn(f)})
	return r
}

func match(segs, path []string) (map[string]string, bool) {
	if len(segs) != len(path) {
		return nil, false
	}
	var params map[string]string
	for i, s := range segs {
		if strings.HasPrefix(s, ":") {
			if params == nil {
				params = map[string]string{}
			}
			v := path[i]
			if u, err := url.QueryUnescape(v); err == nil {
				v = u
			}
			params[s[1:]] = v
			continue
		}
		if s != path[i] {
			return nil, false
		}
	}
	return params, true
}

// ctxs makes the contexts of a chain of routers; routers with the same context
// type share one.
func ctxs(chain []*Router) []reflect.Value {
	out := make([]reflect.Value, len(chain))
	for i, r := range chain {
		if i > 0 && r.ctxType == chain[i-1].ctxType {
			out[i] = out[i-1]
			continue
		}
		out[i] = reflect.New(r.ctxType)
		if i > 0 {
			out[i].Elem().Field(0).Set(out[i-1])
		}
	}
	return out
}

func call(f fn, ctx reflect.Value, args ...interface{}) {
	var in []reflect.Value
	if f.withCtx {
		in = append(in, ctx)
	}
	for _, a := range args {
		in = append(in, reflect.ValueOf(a))
	}
	f.v.Call(in)
}

func (r *Router) ServeHTTP(rw http.ResponseWriter, hr *http.Request) {
	root := r.root
	w := &appResponseWriter{ResponseWriter: rw}
	req := &Request{Request: hr}
	method := hr.Method
	path := split(hr.URL.Path)
	var hit *route
	find := func(m string) {
		for _, rt := range root.routes {
			if rt.method != m {
				continue
			}
			if p, ok := match(rt.segs, path); ok {
				hit, req.PathParams, req.route = rt, p, rt
				return
			}
		}
	}
	find(method)
	if hit == nil && method == "HEAD" {
		find("GET")
	}
	var chain []*Router
	if hit != nil {
		for x := hit.router; x != nil; x = x.parent {
			chain = append([]*Router{x}, chain...)
		}
	} else {
		chain = []*Router{root}
	}
	cs := ctxs(chain)
	defer func() {
		if e := recover(); e != nil {
			for i := len(chain) - 1; i >= 0; i-- {
				if chain[i].onError != nil {
					call(*chain[i].onError, cs[i], ResponseWriter(w), req, e)
					return
				}
			}
			if PanicHandler != nil {
				PanicHandler(fmt.Sprint(hr.URL), e)
			}
			http.Error(w, "Application Error", http.StatusInternalServerError)
		}
	}()
	var run func(ri, mi int, w ResponseWriter, req *Request)
	run = func(ri, mi int, w ResponseWriter, req *Request) {
		for ri < len(chain) && mi >= len(chain[ri].mws) {
			ri, mi = ri+1, 0
		}
		if ri < len(chain) {
			call(chain[ri].mws[mi], cs[ri], w, req, NextMiddlewareFunc(func(w ResponseWriter, req *Request) { run(ri, mi+1, w, req) }))
			return
		}
		if hit != nil {
			call(hit.h, cs[len(cs)-1], w, req)
			return
		}
		if root.notFound != nil {
			call(*root.notFound, cs[0], w, req)
			return
		}
		w.WriteHeader(http.StatusNotFound)
		fmt.Fprint(w, "Not Found")
	}
	run(0, 0, w, req)
}

// PanicHandler, if set, is told about panics of handlers.
var PanicHandler func(url string, err interface{})

func LoggerMiddleware(rw ResponseWriter, req *Request, next NextMiddlewareFunc)     { next(rw, req) }
func ShowErrorsMiddleware(rw ResponseWriter, req *Request, next NextMiddlewareFunc) { next(rw, req) }
