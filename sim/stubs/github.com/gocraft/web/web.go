// Package web stands in for github.com/gocraft/web, which is not available
// offline: the subset of its router that healthd uses, with its semantics
// (middleware in order, a new context per request, a panic becomes a 500).
package web

import (
	"net/http"
	"reflect"
	"strings"
)

type ResponseWriter interface {
	http.ResponseWriter
	http.Flusher
	StatusCode() int
	Written() bool
	Size() int
}

type Request struct {
	*http.Request
	PathParams map[string]string
	route      string
}

func (r *Request) RoutePath() string { return r.route }
func (r *Request) IsRouted() bool    { return r.route != "" }

type NextMiddlewareFunc func(ResponseWriter, *Request)
type GenericMiddleware func(ResponseWriter, *Request, NextMiddlewareFunc)
type GenericHandler func(ResponseWriter, *Request)

type appResponseWriter struct {
	http.ResponseWriter
	code int
	size int
}

func (w *appResponseWriter) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
	w.ResponseWriter.WriteHeader(c)
}
func (w *appResponseWriter) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	n, err := w.ResponseWriter.Write(b)
	w.size += n
	return n, err
}
func (w *appResponseWriter) StatusCode() int { return w.code }
func (w *appResponseWriter) Written() bool   { return w.code != 0 }
func (w *appResponseWriter) Size() int       { return w.size }
func (w *appResponseWriter) Flush() {
	if f, ok := w.ResponseWriter.(http.Flusher); ok {
		f.Flush()
	}
}

type route struct {
	method, path string
	handler      reflect.Value
	router       *Router
}

type Router struct {
	parent   *Router
	prefix   string
	ctxType  reflect.Type
	mw       []reflect.Value
	routes   *[]*route
	notFound reflect.Value
	errH     reflect.Value
}

func New(ctx interface{}) *Router {
	return &Router{ctxType: reflect.TypeOf(ctx), routes: &[]*route{}}
}

func (r *Router) Subrouter(ctx interface{}, prefix string) *Router {
	return &Router{parent: r, prefix: r.prefix + prefix, ctxType: reflect.TypeOf(ctx), routes: r.routes}
}

func (r *Router) Middleware(fn interface{}) *Router {
	r.mw = append(r.mw, reflect.ValueOf(fn))
	return r
}
func (r *Router) NotFound(fn interface{}) *Router { r.notFound = reflect.ValueOf(fn); return r }
func (r *Router) Error(fn interface{}) *Router    { r.errH = reflect.ValueOf(fn); return r }

func (r *Router) add(method, path string, fn interface{}) *Router {
	*r.routes = append(*r.routes, &route{method, r.prefix + path, reflect.ValueOf(fn), r})
	return r
}
func (r *Router) Get(p string, fn interface{}) *Router    { return r.add("GET", p, fn) }
func (r *Router) Post(p string, fn interface{}) *Router   { return r.add("POST", p, fn) }
func (r *Router) Put(p string, fn interface{}) *Router    { return r.add("PUT", p, fn) }
func (r *Router) Delete(p string, fn interface{}) *Router { return r.add("DELETE", p, fn) }
func (r *Router) Head(p string, fn interface{}) *Router   { return r.add("HEAD", p, fn) }

func (r *Router) chain() []*Router {
	if r == nil {
		return nil
	}
	return append(r.parent.chain(), r)
}

func clean(p string) string {
	if len(p) > 1 {
		p = strings.TrimSuffix(p, "/")
	}
	return p
}

func (r *Router) ServeHTTP(w http.ResponseWriter, hr *http.Request) {
	aw := &appResponseWriter{ResponseWriter: w}
	req := &Request{Request: hr}
	defer func() {
		if e := recover(); e != nil {
			http.Error(aw, "Application Error", http.StatusInternalServerError)
		}
	}()
	var rt *route
	for _, c := range *r.routes {
		if c.method == hr.Method && clean(c.path) == clean(hr.URL.Path) {
			rt = c
			break
		}
	}
	last := r
	if rt != nil {
		last = rt.router
		req.route = rt.path
	}
	// one context object per context type, shared between routers of that type
	ctxs := map[reflect.Type]reflect.Value{}
	ctxOf := func(t reflect.Type) reflect.Value {
		v, ok := ctxs[t]
		if !ok {
			v = reflect.New(t)
			ctxs[t] = v
		}
		return v
	}
	type step struct {
		f  reflect.Value
		rt *Router
	}
	var steps []step
	for _, c := range last.chain() {
		for _, m := range c.mw {
			steps = append(steps, step{m, c})
		}
	}
	var run func(i int) NextMiddlewareFunc
	run = func(i int) NextMiddlewareFunc {
		return func(rw ResponseWriter, rq *Request) {
			if i < len(steps) {
				s := steps[i]
				next := reflect.ValueOf(run(i + 1))
				if s.f.Type().NumIn() == 4 {
					s.f.Call([]reflect.Value{ctxOf(s.rt.ctxType), reflect.ValueOf(rw), reflect.ValueOf(rq), next})
				} else {
					s.f.Call([]reflect.Value{reflect.ValueOf(rw), reflect.ValueOf(rq), next})
				}
				return
			}
			h := r.notFound
			cr := r
			if rt != nil {
				h, cr = rt.handler, rt.router
			}
			if !h.IsValid() {
				rw.WriteHeader(http.StatusNotFound)
				rw.Write([]byte("Not Found"))
				return
			}
			if h.Type().NumIn() == 3 {
				h.Call([]reflect.Value{ctxOf(cr.ctxType), reflect.ValueOf(rw), reflect.ValueOf(rq)})
			} else {
				h.Call([]reflect.Value{reflect.ValueOf(rw), reflect.ValueOf(rq)})
			}
		}
	}
	run(0)(aw, req)
}
