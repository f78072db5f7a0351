// Package web stands in for github.com/gocraft/web, which is not available offline. It has
// what healthd uses: one context per request, middleware in order, exact paths.
package web

import (
	"net/http"
	"reflect"
)

// ResponseWriter notes the status code.
type ResponseWriter interface {
	http.ResponseWriter
	StatusCode() int
	Written() bool
	Size() int
}

type writer struct {
	http.ResponseWriter
	code, size int
}

func (w *writer) WriteHeader(code int) {
	w.code = code
	w.ResponseWriter.WriteHeader(code)
}

func (w *writer) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	n, err := w.ResponseWriter.Write(b)
	w.size += n
	return n, err
}

func (w *writer) StatusCode() int { return w.code }
func (w *writer) Written() bool   { return w.code != 0 }
func (w *writer) Size() int       { return w.size }

// Request adds routing information.
type Request struct {
	*http.Request
	PathParams map[string]string
	route      string
}

func (r *Request) RoutePath() string { return r.route }

type NextMiddlewareFunc func(ResponseWriter, *Request)

type route struct {
	path string
	r    *Router
	fn   interface{}
}

type Router struct {
	context    interface{}
	parent     *Router
	root       *Router
	prefix     string
	middleware []interface{}
	routes     []*route
	notFound   interface{}
}

func New(context interface{}) *Router {
	r := &Router{context: context}
	r.root = r
	return r
}

func (r *Router) Subrouter(context interface{}, prefix string) *Router {
	return &Router{context: context, parent: r, root: r.root, prefix: r.prefix + prefix}
}

func (r *Router) NotFound(fn interface{}) *Router { r.notFound = fn; return r }
func (r *Router) Middleware(fn interface{}) *Router {
	r.middleware = append(r.middleware, fn)
	return r
}
func (r *Router) Get(path string, fn interface{}) *Router {
	r.root.routes = append(r.root.routes, &route{r.prefix + path, r, fn})
	return r
}

func (r *Router) chain() []interface{} {
	if r == nil {
		return nil
	}
	return append(r.parent.chain(), r.middleware...)
}

func (r *Router) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	w := &writer{ResponseWriter: rw}
	q := &Request{Request: req}
	ctx := newContext(r.context)
	for _, rt := range r.root.routes {
		if rt.path != req.URL.Path || req.Method != "GET" {
			continue
		}
		q.route = rt.path
		ms := rt.r.chain()
		var next NextMiddlewareFunc
		next = func(w ResponseWriter, q *Request) {
			if len(ms) > 0 {
				m := ms[0]
				ms = ms[1:]
				invoke(m, ctx, w, q, next)
				return
			}
			invoke(rt.fn, ctx, w, q, nil)
		}
		next(w, q)
		return
	}
	if r.notFound != nil {
		invoke(r.notFound, ctx, w, q, nil)
		return
	}
	w.WriteHeader(404)
}

// newContext makes a pointer to a new zero value of the context's type.
func newContext(proto interface{}) interface{} {
	return reflect.New(reflect.TypeOf(proto)).Interface()
}

// invoke calls a handler or, with next, a middleware; ctx is left out if it takes none.
func invoke(fn, ctx interface{}, w ResponseWriter, q *Request, next NextMiddlewareFunc) {
	args := []reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(w), reflect.ValueOf(q)}
	if next != nil {
		args = append(args, reflect.ValueOf(next))
	}
	f := reflect.ValueOf(fn)
	if f.Type().NumIn() < len(args) {
		args = args[1:]
	}
	f.Call(args)
}
