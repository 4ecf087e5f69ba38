// Package mux is a small stand-in for github.com/gorilla/mux (not available offline): the subset generated servers use,
// with the same matching rules (decoded path, {name} matches one or more characters other than '/', first match wins,
// 405 when only the method differs).
package mux

import (
	"context"
	"net/http"
	"strings"
)

type Route struct {
	path    string
	handler func(http.ResponseWriter, *http.Request)
	methods []string
}

func (r *Route) Methods(m ...string) *Route {
	for _, x := range m {
		r.methods = append(r.methods, strings.ToUpper(x))
	}
	return r
}

type Router struct {
	NotFoundHandler http.Handler
	routes          []*Route
}

func NewRouter() *Router { return &Router{} }

func (r *Router) HandleFunc(path string, f func(http.ResponseWriter, *http.Request)) *Route {
	rt := &Route{path: path, handler: f}
	r.routes = append(r.routes, rt)
	return rt
}

type key struct{}

func Vars(r *http.Request) map[string]string {
	if v, ok := r.Context().Value(key{}).(map[string]string); ok {
		return v
	}
	return nil
}

func match(tmpl, path string) (map[string]string, bool) {
	vars := map[string]string{}
	for {
		i := strings.IndexByte(tmpl, '{')
		if i < 0 {
			return vars, tmpl == path
		}
		if !strings.HasPrefix(path, tmpl[:i]) {
			return nil, false
		}
		path = path[i:]
		j := strings.IndexByte(tmpl, '}')
		name := tmpl[i+1 : j]
		tmpl = tmpl[j+1:]
		next := tmpl
		if k := strings.IndexByte(next, '{'); k >= 0 {
			next = next[:k]
		}
		end := strings.IndexByte(path, '/')
		if end < 0 {
			end = len(path)
		}
		if end == 0 || !strings.HasPrefix(path[end:], next) {
			return nil, false
		}
		vars[name] = path[:end]
		path = path[end:]
	}
}

func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	other := false
	for _, rt := range r.routes {
		vars, ok := match(rt.path, req.URL.Path)
		if !ok {
			continue
		}
		hit := len(rt.methods) == 0
		for _, m := range rt.methods {
			hit = hit || m == req.Method
		}
		if !hit {
			other = true
			continue
		}
		rt.handler(w, req.WithContext(context.WithValue(req.Context(), key{}, vars)))
		return
	}
	if other {
		w.WriteHeader(http.StatusMethodNotAllowed)
		return
	}
	if r.NotFoundHandler != nil {
		r.NotFoundHandler.ServeHTTP(w, req)
		return
	}
	http.NotFound(w, req)
}
