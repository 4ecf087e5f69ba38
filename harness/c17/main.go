// C17: generated Java servers and clients exchange exactly what the http actions say.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/boynton/sadl"

	"verif/gox"
	"verif/jx"
	"verif/mon"
)

func main() {
	mon.Main(mon.Spec{Prop: "C17", Quick: 2, Env: []string{"DOMAIN=host.example.org"},
		Rule:        "random services generated to Java servers and clients with random options (in one run, or model, server and client in separate runs), compiled by javac against stand-ins of JAX-RS, Jackson, Jersey and Jetty; the generated client calls the generated server over a recording wire: request on the wire, request the service sees, response on the wire and result or exception the client returns are compared with the model; requests without parameters that have defaults; the example implementation started by the generated launcher; unsupported defaults are refused; non-trivial = distinct service",
		Assumptions: []string{"JAX-RS, Jackson, Jersey and Jetty are stand-ins that implement their rules as far as generated code relies on them", "path parameters are not empty, exceptions of an action are structs with distinct statuses, a type with several is sent with the first"},
		MinEvents:   map[string]int{"service": 150, "call": 1500, "exception": 200, "undeclared error": 150, "default": 50, "launcher": 80, "stub": 80, "separate": 40, "out header": 60, "string body": 30, "refused": 40}},
		func(r *mon.Run) {
			var j *jx.JVM
			r.Cases("service", r.Scale(400, 5000), func(i int, g *mon.Rand) {
				if j == nil {
					j = jx.Start()
				}
				one(r, j, g)
			})
			r.Cases("refuse", r.Scale(80, 400), func(i int, g *mon.Rand) { refuse(r, g) })
			if j != nil {
				j.Stop()
			}
		})
}

type call struct {
	h       *sadl.HttpDef
	kind    string
	req     map[string]interface{} // what the client sends
	want    map[string]interface{} // what the service has to see
	res     map[string]interface{}
	exc     *sadl.HttpExceptionSpec
	excBody interface{}
}

func isBody(p *sadl.HttpParamSpec) bool { return !p.Path && p.Query == "" && p.Header == "" }

func fresh(l []*sadl.HttpParamSpec, name string) string {
	for _, f := range l {
		if f.Name == name {
			return name + "X"
		}
	}
	return name
}

// param is a value for a parameter that survives as text.
func param(p *jx.Proj, f *sadl.HttpParamSpec) interface{} {
	g := p.G
	t := p.Resolve(&f.TypeSpec)
	if t.Type == "String" {
		switch {
		case f.Path:
			return g.Pick("abc", "a b", "x/y", "é", "1+1", "q?r", "50%25", "a;b=c", "#1", "&")
		case f.Query != "":
			return g.Pick("abc", "a b", "x/y", "é", "1+1", "q?r", "a&b=c", "#1")
		}
		return g.Pick("abc", "a b", "x/y", "1+1", "W/\"tag\"")
	}
	return p.Value(&f.TypeSpec, 1)
}

func value(p *jx.Proj, ins []*sadl.HttpParamSpec) map[string]interface{} {
	m := map[string]interface{}{}
	for _, f := range ins {
		if !f.Required && !f.Path && p.G.P(35) {
			continue
		}
		if isBody(f) {
			m[f.Name] = p.Value(&f.TypeSpec, 1)
		} else {
			m[f.Name] = param(p, f)
		}
	}
	return m
}

// first is the exception whose status a server sends for the type of e.
func first(h *sadl.HttpDef, e *sadl.HttpExceptionSpec) *sadl.HttpExceptionSpec {
	for _, x := range h.Exceptions {
		if x.Type == e.Type {
			return x
		}
	}
	return e
}

func one(r *mon.Run, j *jx.JVM, rnd *mon.Rand) {
	p := jx.Model(rnd, true)
	g, s := p.G, p.S
	if len(s.Http) == 0 {
		return
	}
	defaults(p)
	for _, h := range s.Http {
		for _, o := range h.Expected.Outputs {
			if o.Header != "" {
				o.Type = g.Pick("String", "Int32", "Int64", "Bool", "Timestamp", "Decimal", "UUID", "Float64", "String")
				for _, td := range s.Types {
					if td.Type == "Enum" && g.P(20) {
						o.Type = td.Name
					}
				}
			}
		}
		for _, f := range append(h.Inputs[:len(h.Inputs):len(h.Inputs)], h.Expected.Outputs...) {
			if f.Header != "" { // header values are plain text
				if t := p.Resolve(&f.TypeSpec); t.Type == "Enum" {
					for _, el := range t.Elements {
						delete(el.Annotations, "x_enumValue")
					}
				}
			}
		}
	}
	// names that generated methods use themselves
	for _, h := range s.Http {
		if g.P(20) {
			for _, f := range h.Inputs {
				if !f.Path {
					f.Name = fresh(h.Inputs, g.Pick("status", "entity", "req", "res", "response", "e", "th", "se", "target", "config"))
					break
				}
			}
			if i := strings.Index(h.Path, "?"); i >= 0 {
				h.Path = h.Path[:i]
			}
		}
		if g.P(20) && len(h.Expected.Outputs) > 0 {
			h.Expected.Outputs[0].Name = fresh(h.Expected.Outputs, g.Pick("response", "req", "target", "inv", "status", "client", "config", "base"))
		}
	}
	s.Base = g.Pick("", "", "/api", "/v1/svc")
	m, err := sadl.NewModel(s)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	p.M = m
	server, client := p.Package+".server", p.Package+".client"
	if g.P(20) {
		server = "org.srv"
		p.Conf.Put("server-package", server)
	}
	if g.P(20) {
		client = "org.cli.v1"
		p.Conf.Put("client-package", client)
	}
	dir := filepath.Join(r.Scratch(), "p")
	defer os.RemoveAll(dir)
	main := g.P(50)
	if main {
		p.Conf.Put("example-implementation", true)
	}
	r.Observe(mon.JSON(s)+p.Conf.String(), true)
	if g.P(30) {
		r.Event("separate")
		for _, k := range g.Perm(3) {
			for i, n := range []string{"model", "server", "client"} {
				p.Conf.Put(n, i == k)
			}
			if !p.Export(r, dir) {
				return
			}
		}
	} else {
		p.Conf.Put("server", true)
		p.Conf.Put("client", true)
		if !p.Export(r, dir) {
			return
		}
	}
	files := map[string]bool{}
	for _, f := range jx.Tree(dir) {
		files[f] = true
	}
	want := []string{p.Path(p.Model, p.Service), p.Path(server, p.Service+"Resources"), p.Path(client, p.Service+"Client"), p.Path(client, "ClientConfig")}
	if main {
		want = append(want, p.Path("", "Main"), p.Path("", p.Service+"Controller"))
	}
	for _, f := range want {
		if !files[f] {
			r.Failf("files", "no file %s but %v\n%s", f, jx.Tree(dir), p.Conf)
			return
		}
	}
	text := ""
	defer func() { _ = text }()
	var calls []*call
	var ops []jx.Op
	add := func(c *call, reply string, body interface{}, more jx.Op) {
		op := jx.Op{"op": "call", "model": p.Model, "name": p.Service, "resources": server + "." + p.Service + "Resources", "reply": reply, "body": mon.JSON(body),
			"base": s.Base, "config": client + ".ClientConfig", "client": client + "." + p.Service + "Client", "serviceException": p.ServiceExc,
			"action": strings.ToLower(c.h.Name[:1]) + c.h.Name[1:], "req": mon.JSON(c.req)}
		if reply == "stub" || main && g.Bool() {
			op["main"] = "Main"
		}
		for k, v := range more {
			op[k] = v
		}
		if op["main"] != nil {
			c.kind += " launcher"
		}
		calls, ops = append(calls, c), append(ops, op)
	}
	for _, h := range s.Http {
		fill := func(req map[string]interface{}) map[string]interface{} {
			w := map[string]interface{}{}
			for k, v := range req {
				w[k] = v
			}
			for _, f := range h.Inputs {
				if w[f.Name] == nil && f.Default != nil {
					w[f.Name] = plain(p, f)
				}
			}
			return w
		}
		for k := 0; k < 4; k++ {
			req := value(p, h.Inputs)
			c := &call{h: h, kind: "ok", req: req, want: fill(req), res: value(p, h.Expected.Outputs)}
			add(c, "ok", c.res, nil)
		}
		for _, e := range h.Exceptions {
			req := value(p, h.Inputs)
			c := &call{h: h, kind: "exception", req: req, want: fill(req), exc: first(h, e), excBody: p.Value(&sadl.TypeSpec{Type: e.Type}, 1)}
			add(c, "exc:"+gox.Cap(e.Type), c.excBody, nil)
		}
		req := value(p, h.Inputs)
		add(&call{h: h, kind: "error", req: req, want: fill(req)}, "err", "went wrong", nil)
		if main {
			add(&call{h: h, kind: "stub", req: req}, "stub", nil, nil)
		}
	}
	a := j.Job(filepath.Join(dir, p.Source), false, ops)
	if a.Error != "" {
		r.Failf("compile", "the generated code does not compile:\n%s\n%s\n%s\nmodel %s", a.Error, p.Conf, jx.Sources(dir), mon.JSON(s))
		return
	}
	r.Event("service")
	for k, x := range a.Results {
		if r.Failures() > 3 {
			return
		}
		judge(r, p, calls[k], x, dir)
	}
}

func judge(r *mon.Run, p *jx.Proj, c *call, x map[string]interface{}, dir string) {
	h := c.h
	fail := func(sig, format string, args ...interface{}) {
		src := ""
		for _, part := range strings.Split(jx.Sources(dir), "=== ") {
			if n, _, _ := strings.Cut(part, "\n"); strings.HasSuffix(n, "Resources.java") || strings.HasSuffix(n, "Client.java") || strings.HasSuffix(n, gox.Cap(h.Name)+"Request.java") {
				src += part
			}
		}
		r.Failf(sig, "%s %s (%s): %s\nobserved %s\nrequest %s\naction %s\nconfig %s\n%s", h.Method, h.Path, c.kind, fmt.Sprintf(format, args...), mon.JSON(x), mon.JSON(c.req), mon.JSON(h), p.Conf, src)
	}
	if e := jx.Str(x["err"]); e != "" {
		fail("crash", "%s", e)
		return
	}
	if e := jx.Str(x["main"]); e != "" {
		fail("launcher", "%s", e)
		return
	}
	if strings.Contains(c.kind, "launcher") {
		r.Event("launcher")
	}
	w := x["wire"].(map[string]interface{})
	if jx.Str(x["count"]) != "1" {
		fail("count", "%v requests were sent", x["count"])
		return
	}
	r.Event("call")
	// the request on the wire
	if w["method"] != h.Method {
		fail("method", "sent as %v", w["method"])
	}
	uri := jx.Str(w["uri"])
	path, query, _ := strings.Cut(uri, "?")
	tmpl, _, _ := strings.Cut(h.Path, "?")
	re := regexp.QuoteMeta("http://host.test" + p.S.Base)
	for i, part := range regexp.MustCompile(`\{[^}]*\}`).Split(tmpl, -1) {
		if i > 0 {
			re += "[^/?#]+"
		}
		re += regexp.QuoteMeta(part)
	}
	if !regexp.MustCompile("^" + re + "$").MatchString(path) {
		fail("path", "sent to %s", uri)
	}
	var wantQ, gotQ, wantH, gotH []string
	var body *sadl.HttpParamSpec
	for _, f := range h.Inputs {
		_, has := c.req[f.Name]
		t := p.Resolve(&f.TypeSpec).Type
		_ = t
		switch {
		case f.Query != "" && has:
			wantQ = append(wantQ, f.Query)
		case f.Header != "" && has:
			wantH = append(wantH, strings.ToLower(f.Header))
		case isBody(f):
			body = f
		}
	}
	if query != "" {
		for _, kv := range strings.Split(query, "&") {
			k, _, _ := strings.Cut(kv, "=")
			gotQ = append(gotQ, k)
		}
	}
	for k := range w["headers"].(map[string]interface{}) {
		if k := strings.ToLower(k); k != "accept" && k != "content-type" {
			gotH = append(gotH, k)
		}
	}
	for _, l := range [][]string{wantQ, gotQ, wantH, gotH} {
		sort.Strings(l)
	}
	if fmt.Sprint(wantQ) != fmt.Sprint(gotQ) {
		fail("query", "query parameters %v sent, want %v", gotQ, wantQ)
	}
	if fmt.Sprint(wantH) != fmt.Sprint(gotH) {
		fail("headers", "headers %v sent, want %v", gotH, wantH)
	}
	canonText := func(ts *sadl.TypeSpec, s interface{}) string {
		v, err := jx.Dec(jx.Str(s))
		if err != nil {
			return fmt.Sprintf("?%v %q", err, s)
		}
		return p.Canon(ts, v)
	}
	tree := func(v interface{}) interface{} {
		d, err := jx.Dec(mon.JSON(v))
		if err != nil {
			mon.Bug("%v", err)
		}
		return d
	}
	if body != nil {
		if p.Resolve(&body.TypeSpec).Type == "String" {
			r.Event("string body")
		}
		if got, want := canonText(&body.TypeSpec, w["body"]), p.Canon(&body.TypeSpec, tree(c.req[body.Name])); got != want {
			fail("body", "body %v sent (%s), want %s", w["body"], got, want)
		}
	} else if b := jx.Str(w["body"]); b != "" {
		fail("body", "body %q sent, there is none", b)
	}
	// the request the service sees
	if strings.HasPrefix(c.kind, "stub") {
		r.Event("stub")
		if jx.Str(w["status"]) != fmt.Sprint(h.Expected.Status) {
			fail("stub", "the example implementation answers %v, want %d", w["status"], h.Expected.Status)
		}
		return
	}
	if len(c.want) > len(c.req) {
		r.Event("default")
	}
	seen, _ := x["seen"].([]interface{})
	if len(seen) != 1 {
		fail("seen", "the service was called %d times", len(seen))
		return
	}
	sn := seen[0].(map[string]interface{})
	if n := jx.Str(sn["method"]); n != strings.ToLower(h.Name[:1])+h.Name[1:] {
		fail("seen", "the service was called as %s", n)
	}
	rt := &sadl.TypeSpec{Type: "Struct", Fields: jx.Req(h)}
	if got, want := canonText(rt, sn["req"]), p.Canon(rt, tree(c.want)); got != want {
		fail("seen", "the service sees %s, want %s", got, want)
		return
	}
	// the response on the wire
	status := h.Expected.Status
	switch {
	case c.exc != nil:
		if status = c.exc.Status; status == 0 {
			r.Event("default exception")
			status = 500
		}
	case strings.HasPrefix(c.kind, "error"):
		status = 500
	}
	if jx.Str(w["status"]) != fmt.Sprint(status) {
		fail("status", "answered with %v, want %d", w["status"], status)
		return
	}
	switch {
	case c.exc != nil:
		r.Event("exception")
		et := &sadl.TypeSpec{Type: c.exc.Type}
		want := p.Canon(et, tree(c.excBody))
		if status == 304 || h.Method == "HEAD" { // has no body
			r.Event("exception without a body")
			if t := jx.Str(x["thrown"]); t != p.Model+"."+gox.Cap(c.exc.Type) {
				fail("exception", "the client throws %q", t)
			}
			break
		}
		if got := canonText(et, w["resBody"]); got != want {
			fail("exception", "the body of the exception is %s, want %s", got, want)
		}
		if t := jx.Str(x["thrown"]); t != p.Model+"."+gox.Cap(c.exc.Type) {
			fail("exception", "the client throws %q", t)
		} else if got := canonText(et, x["excBody"]); got != want {
			fail("exception", "the client throws %s, want %s", got, want)
		}
	case strings.HasPrefix(c.kind, "error"):
		r.Event("undeclared error")
		if x["thrown"] == nil {
			fail("error", "the client returns %v for an error of the service", x["res"])
		}
	default:
		var gotO, wantO []string
		for k := range w["resHeaders"].(map[string]interface{}) {
			gotO = append(gotO, strings.ToLower(k))
		}
		hasBody := false
		for _, o := range h.Expected.Outputs {
			if o.Header == "" {
				hasBody = h.Method != "HEAD"
				if !hasBody {
					r.Event("no body to a HEAD request")
				} else if got, want := canonText(&o.TypeSpec, w["resBody"]), p.Canon(&o.TypeSpec, tree(c.res[o.Name])); got != want {
					fail("result", "the body of the response is %s, want %s", got, want)
				}
			} else if c.res[o.Name] != nil {
				r.Event("out header")
				wantO = append(wantO, strings.ToLower(o.Header))
			}
		}
		if !hasBody && jx.Str(w["resBody"]) != "" {
			fail("result", "there is a response body %q", w["resBody"])
		}
		sort.Strings(wantO)
		sort.Strings(gotO)
		if fmt.Sprint(gotO) != fmt.Sprint(wantO) {
			fail("result", "response headers %v, want %v", gotO, wantO)
		}
		if x["thrown"] != nil {
			fail("result", "the client throws %v %v", x["thrown"], x["message"])
			return
		}
		if len(h.Expected.Outputs) == 0 {
			if s := jx.Str(x["res"]); s != "null" && s != "{}" {
				fail("result", "the client returns %s", s)
			}
			return
		}
		ot := &sadl.TypeSpec{Type: "Struct", Fields: jx.Res(h)}
		if h.Method == "HEAD" { // only the headers are answered
			res, _ := jx.Dec(jx.Str(x["res"]))
			m, _ := res.(map[string]interface{})
			for _, o := range h.Expected.Outputs {
				if o.Header != "" {
					if got, want := p.Canon(&o.TypeSpec, m[o.Name]), p.Canon(&o.TypeSpec, tree(c.res[o.Name])); got != want && (m[o.Name] != nil || c.res[o.Name] != nil) {
						fail("result", "the client returns %s for %s, want %s", got, o.Name, want)
					}
				}
			}
			return
		}
		if got, want := canonText(ot, x["res"]), p.Canon(ot, tree(c.res)); got != want {
			fail("result", "the client returns %s, want %s", got, want)
		}
	}
}

// defaults gives some parameters a default, as the parser or a model loaded from JSON represents it.
func defaults(p *jx.Proj) {
	g := p.G
	for _, h := range p.S.Http {
		for _, f := range h.Inputs {
			if f.Query == "" && f.Header == "" || f.Required || !g.P(40) {
				continue
			}
			switch p.Resolve(&f.TypeSpec).Type {
			case "String":
				s := g.Pick("abc", "a \"b\"", "x\\y", "1.5")
				f.Default = s
				if g.Bool() {
					f.Default = &s
				}
			case "Bool":
				f.Default = g.Bool()
			case "Int8", "Int16", "Int32", "Int64":
				f.Default = float64(g.Pick0(0, 7, 100, -3))
				if g.Bool() {
					d, _ := sadl.ParseDecimal(fmt.Sprint(f.Default))
					f.Default = d
				}
			case "Float32", "Float64", "Decimal":
				f.Default = 1.5
				if g.Bool() {
					d, _ := sadl.ParseDecimal("-0.25")
					f.Default = d
				}
			}
		}
	}
}

func plain(p *jx.Proj, f *sadl.HttpParamSpec) interface{} {
	switch d := f.Default.(type) {
	case *string:
		return *d
	case *sadl.Decimal:
		return json.Number(d.String())
	case float64:
		return json.Number(fmt.Sprint(d))
	}
	return f.Default
}

func refuse(r *mon.Run, rnd *mon.Rand) {
	p := jx.Model(rnd, true)
	g := p.G
	if len(p.S.Http) == 0 {
		return
	}
	h := p.S.Http[g.Intn(len(p.S.Http))]
	if g.P(40) {
		refuseSame(r, p, h)
		return
	}
	f := &sadl.HttpParamSpec{Query: "odd"}
	f.Name, f.Type = "odd", "Any"
	f.Default = g.PickS2([]interface{}{"a"}, map[string]interface{}{"a": "b"})
	h.Inputs = append(h.Inputs, f)
	m, err := sadl.NewModel(p.S)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	p.Conf.Put("server", true)
	dir := filepath.Join(r.Scratch(), "refuse")
	defer os.RemoveAll(dir)
	r.Note(mon.JSON(p.S))
	mon.Capture(func() { err = jx.Export(m, dir, p.Conf) })
	if err == nil {
		r.Failf("not-refused", "a server was generated for a default of %v\n%s", f.Default, jx.Sources(dir))
	}
	r.Event("refused")
}

// refuseSame: two responses with one status cannot be told apart by the client.
func refuseSame(r *mon.Run, p *jx.Proj, h *sadl.HttpDef) {
	var e1, e2 string
	for _, td := range p.S.Types {
		if td.Type == "Struct" {
			e1, e2 = e2, td.Name
		}
	}
	if e1 == "" {
		return
	}
	st := int32(p.G.Pick0(0, 404, 409, int(h.Expected.Status)))
	h.Exceptions = []*sadl.HttpExceptionSpec{{Type: e1, Status: st}}
	if st != h.Expected.Status {
		h.Exceptions = append(h.Exceptions, &sadl.HttpExceptionSpec{Type: e2, Status: st})
	}
	m, err := sadl.NewModel(p.S)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	p.Conf.Put("client", true)
	dir := filepath.Join(r.Scratch(), "refuse")
	defer os.RemoveAll(dir)
	r.Note(mon.JSON(p.S))
	mon.Capture(func() { err = jx.Export(m, dir, p.Conf) })
	if err == nil {
		r.Failf("not-refused", "a client was generated for two responses with status %d\n%s", st, jx.Sources(dir))
	}
	r.Event("refused")
}
