// C18: the HTTP trace shows every example of every action as the request and response the model says.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/httptrace"

	"verif/gen"
	"verif/gox"
	"verif/mon"
)

func main() {
	mon.Main(mon.Spec{Prop: "C18",
		Rule:        "random services with named examples (requests, responses, exceptions, unrelated ones) held as the parser or as the JSON loader leaves them; the printed trace is read back as HTTP messages by net/http and compared with the model and the examples; the second trace must be the first apart from the date; examples that are no objects must be refused; non-trivial = distinct service with an example",
		Assumptions: []string{"header values are printable and without line ends", "an empty query value counts as absent", "every action has an expected response"},
		MinEvents:   map[string]int{"trace": 2000, "request": 3000, "response": 800, "exception": 400, "no response": 400, "path value": 2000, "query value": 1500, "absent query": 800, "absent query with a default": 100, "request header": 500, "response header": 300, "request body": 800, "response body": 500, "refused": 300, "no content": 100, "several answers": 100}},
		func(r *mon.Run) {
			r.Cases("trace", r.Scale(4000, 80000), func(i int, g *mon.Rand) { trace(r, g) })
		})
}

var kinds = []string{"Bool", "Int32", "Int64", "Decimal", "String", "Timestamp", "UUID", "Array", "Map", "Struct", "Struct", "Struct", "Enum", "Union"}
var params = []string{"String", "String", "Int32", "Int64", "Bool", "Decimal", "UUID", "Timestamp", "Float64"}

// held gives the value the way the parser (or the JSON loader) leaves it in a model.
func held(x interface{}, parser bool) interface{} {
	switch t := x.(type) {
	case string:
		if parser {
			return &t
		}
		return t
	case json.Number:
		if parser {
			d, err := sadl.ParseDecimal(t.String())
			if err != nil {
				mon.Bug("%v", err)
			}
			return d
		}
		f, _ := t.Float64()
		return f
	case []interface{}:
		l := []interface{}{}
		for _, e := range t {
			l = append(l, held(e, parser))
		}
		return l
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range t {
			m[k] = held(e, parser)
		}
		return m
	}
	return x
}

type example struct {
	name string
	req  map[string]interface{}
	res  map[string]interface{}
	exc  *sadl.HttpExceptionSpec
	body interface{}
	alts []*example // with several answers of the same name, it is one of them
}

type svc struct {
	s     *sadl.Schema
	v     *gox.Values
	g     *mon.Rand
	exact bool // the numbers are decimals, none of their digits may be lost
}

var texts = []string{"hello", "a b", "x/y", "q&r=s", "50%", "a+b", "é日", "{id}", "{name}", "k=", "?x", "#1", "a;b", "~", "=", "0", "%41"}

func (p *svc) value(ts *sadl.TypeSpec, header bool) interface{} {
	for {
		x := p.v.Value(ts, 0)
		if p.v.Resolve(ts).Type == "Bool" {
			x = p.g.Bool()
		}
		if _, ok := x.(json.Number); ok && p.exact && p.v.Resolve(ts).Type == "Decimal" && p.g.P(40) {
			d := p.g.Pick("-", "") + "1"
			for n := p.g.Range(15, 60); n > 0; n-- {
				d += p.g.Pick("0", "3", "7", "9")
			}
			if k := p.g.Intn(len(d) - 2); k > 1 {
				d = d[:k] + "." + d[k:] + "1"
			}
			x = json.Number(d)
		}
		if s, ok := x.(string); ok && p.v.Resolve(ts).Type == "String" {
			s = p.g.PickS(texts)
			x = s
		}
		if s, ok := x.(string); ok && header {
			bad := strings.TrimSpace(s) != s
			for _, c := range s {
				bad = bad || c < ' ' || c > '~'
			}
			if bad {
				continue
			}
		}
		return x
	}
}

func (p *svc) example(h *sadl.HttpDef, name string) *example {
	e := &example{name: name, req: map[string]interface{}{}}
	for _, in := range h.Inputs {
		if in.Path || in.Required || p.g.P(65) {
			e.req[in.Name] = p.value(&in.TypeSpec, in.Header != "")
		}
	}
	k := p.g.Intn(3)
	if k == 1 && len(h.Exceptions) == 0 {
		k = 2
	}
	switch k {
	case 1:
		e.exc = h.Exceptions[p.g.Intn(len(h.Exceptions))]
		e.body = p.v.Value(&sadl.TypeSpec{Type: e.exc.Type}, 0)
	case 2:
		e.res = map[string]interface{}{}
		for _, o := range h.Expected.Outputs {
			if o.Required || p.g.P(70) {
				e.res[o.Name] = p.value(&o.TypeSpec, o.Header != "")
			}
		}
	}
	return e
}

// number gives a number in a comparable form: all its digits, or what a float64 keeps of it.
func (p *svc) number(n json.Number) string {
	if p.exact {
		if x, ok := new(big.Rat).SetString(n.String()); ok {
			return x.RatString()
		}
		return "?" + n.String()
	}
	f, _ := n.Float64()
	return fmt.Sprint(f)
}

func trace(r *mon.Run, rnd *mon.Rand) {
	g := gen.New(rnd, gen.Opts{Kinds: kinds, FieldKinds: kinds[:7], Recursive: true, NamedItems: true, EmptyStruct: true, MinTypes: 3, MaxTypes: 7})
	s := g.Types()
	scalar := func(td *sadl.TypeDef) bool {
		switch td.Type {
		case "Bool", "Int32", "Int64", "Decimal", "String", "UUID", "Timestamp", "Enum":
			return true
		}
		return false
	}
	g.Http(gen.HttpOpts{Methods: []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}, Min: 1, Max: 5, Query: true, Headers: true, OutHeaders: true, Exceptions: true, DefaultExc: true, NoContent: true, ReqParams: true,
		ParamKinds: params, NamedParams: scalar, BodyTypes: func(td *sadl.TypeDef) bool { return true }, BodyKinds: []string{"String", "Any", "Int32"}})
	parser := rnd.Bool()
	p := &svc{s: s, g: rnd, v: &gox.Values{S: s, G: g, Runtime: true}, exact: parser}
	want := map[string][]*example{}
	both := false
	var defs []*sadl.ExampleDef
	for _, h := range s.Http {
		if h.Expected.Status == 304 || h.Expected.Status == 204 {
			if rnd.Bool() { // a body that must not be sent
				o := &sadl.HttpParamSpec{}
				o.Name, o.Type = "extra", "String"
				h.Expected.Outputs = append(h.Expected.Outputs, o)
			}
		}
		if rnd.Bool() {
			h.Name = sadl.Capitalize(h.Name)
		}
		if rnd.P(15) { // and an answer of the other kind
			both = true
		}
		names := []string{"good", "first", "second", "bad one", "x1", ""}
		for _, in := range h.Inputs { // a default is not what the example sends
			if !in.Path && !in.Required && (in.Query != "" || in.Header != "") && rnd.P(30) {
				in.Default = held(p.value(&in.TypeSpec, in.Header != ""), parser)
			}
		}
		n := rnd.Intn(4)
		for k, j := range rnd.Perm(len(names)) {
			if k >= n {
				break
			}
			e := p.example(h, names[j])
			want[h.Name] = append(want[h.Name], e)
			defs = append(defs, &sadl.ExampleDef{Target: sadl.Capitalize(h.Name) + "Request", Name: e.name, Example: held(e.req, parser)})
		}
	}
	// the other examples come before, between and after
	used := map[string]bool{}
	add := func(d *sadl.ExampleDef) {
		at := rnd.Intn(len(defs) + 1)
		defs = append(defs[:at:at], append([]*sadl.ExampleDef{d}, defs[at:]...)...)
	}
	for _, h := range s.Http {
		for _, e := range want[h.Name] {
			if both && e.exc != nil && rnd.Bool() {
				e.res = map[string]interface{}{}
				for _, o := range h.Expected.Outputs {
					e.res[o.Name] = p.value(&o.TypeSpec, o.Header != "")
				}
			}
			if e.res != nil {
				add(&sadl.ExampleDef{Target: sadl.Capitalize(h.Name) + "Response", Name: e.name, Example: held(e.res, parser)})
			}
			if e.exc != nil {
				k := e.exc.Type + "/" + e.name
				if used[k] { // the same example may answer several actions: give this one no answer
					e.exc = nil
					continue
				}
				used[k] = true
				add(&sadl.ExampleDef{Target: e.exc.Type, Name: e.name, Example: held(e.body, parser)})
			}
		}
	}
	// an exception example of that name answers every action that has the exception and an example of that name
	for _, h := range s.Http {
		for _, e := range want[h.Name] {
			var alts []*example
			if e.res != nil {
				alts = append(alts, &example{name: e.name, req: e.req, res: e.res})
			}
			for _, d := range defs {
				if d.Name != e.name {
					continue
				}
				for _, x := range h.Exceptions {
					if x.Type == d.Target {
						alts = append(alts, &example{name: e.name, req: e.req, exc: x, body: d.Example})
					}
				}
			}
			if len(alts) > 0 {
				*e = *alts[0]
				e.alts = alts[1:]
			}
		}
	}
	for k := rnd.Intn(3); k > 0; k-- { // unrelated
		add(&sadl.ExampleDef{Target: "Unrelated" + fmt.Sprint(k), Name: rnd.Pick("good", "other", ""), Example: map[string]interface{}{"z": true}})
	}
	s.Examples = defs
	m, err := sadl.NewModel(s)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	before := mon.JSON(s)
	r.Note(before)
	r.Observe(before, len(defs) > 0)
	out := mon.Capture(func() { err = httptrace.Export(m, sadl.NewData()) })
	now := time.Now()
	if err != nil {
		r.Failf("error", "%v\n%s", err, before)
		return
	}
	if mon.JSON(s) != before {
		r.Failf("mutated", "the model changed\n%s", before)
	}
	r.Event("trace")
	again := mon.Capture(func() { err = httptrace.Export(m, sadl.NewData()) })
	if undate(out) != undate(again) {
		r.Failf("unstable", "%s\n----\n%s", out, again)
	}
	rest := out
	for _, h := range s.Http {
		for _, e := range want[h.Name] {
			start := rest
			var d string
			rest, d = p.check(r, h, e, start, now)
			for _, a := range e.alts {
				r.Event("several answers")
				if d != "" {
					rest, d = p.check(r, h, a, start, now)
				}
			}
			if d != "" {
				r.Failf("trace", "action %s, example %q: %s\n%s\n%s", h.Name, e.name, d, out, before)
				return
			}
		}
		if !strings.HasPrefix(rest, "\n") {
			r.Failf("trace", "after action %s: unexpected %q\n%s\n%s", h.Name, rest, out, before)
			return
		}
		rest = rest[1:]
	}
	if rest != "" {
		r.Failf("trace", "unexpected %q\n%s\n%s", rest, out, before)
	}
	refuse(r, p)
}

func undate(s string) string {
	l := strings.Split(s, "\n")
	for i := range l {
		if strings.HasPrefix(l[i], "Date: ") {
			l[i] = "Date:"
		}
	}
	return strings.Join(l, "\n")
}

func (p *svc) same(text string, x interface{}) bool {
	if n, ok := x.(json.Number); ok {
		return json.Valid([]byte(text)) && p.number(json.Number(text)) == p.number(n)
	}
	return text == fmt.Sprint(x)
}

func (p *svc) sameJSON(body string, x interface{}) bool {
	b, err := json.Marshal(x)
	if err != nil {
		mon.Bug("%v", err)
	}
	var v [2]interface{}
	for i, t := range []string{body, string(b)} {
		d := json.NewDecoder(strings.NewReader(t))
		d.UseNumber()
		if d.Decode(&v[i]) != nil {
			return false
		}
		if _, err := d.Token(); err != io.EOF {
			return false
		}
		v[i] = p.numbers(v[i])
	}
	return reflect.DeepEqual(v[0], v[1])
}

// numbers replaces the numbers in a value by a comparable form.
func (p *svc) numbers(x interface{}) interface{} {
	switch t := x.(type) {
	case json.Number:
		return json.Number(p.number(t))
	case []interface{}:
		for i := range t {
			t[i] = p.numbers(t[i])
		}
	case map[string]interface{}:
		for k := range t {
			t[k] = p.numbers(t[k])
		}
	}
	return x
}

func (p *svc) check(r *mon.Run, h *sadl.HttpDef, e *example, text string, now time.Time) (string, string) {
	cut := func(prefix string) bool {
		if !strings.HasPrefix(text, prefix) {
			return false
		}
		text = text[len(prefix):]
		return true
	}
	if !cut("#\n# " + e.name + " (action=" + h.Name + ")\n#\n#   Request:\n") {
		return text, fmt.Sprintf("no title at %.80q", text)
	}
	i := strings.Index(text, "\n\n")
	if i < 0 {
		return text, "no request"
	}
	req, err := http.ReadRequest(bufio.NewReader(strings.NewReader(text[:i+2])))
	if err != nil {
		return text, fmt.Sprintf("not an HTTP request: %v", err)
	}
	text = text[i+2:]
	r.Event("request")
	if req.Method != h.Method {
		return text, "method " + req.Method
	}
	path := h.Path
	if i := strings.IndexByte(path, '?'); i >= 0 {
		path = path[:i]
	}
	wantHdr := map[string]interface{}{"Accept": "application/json"}
	wantQ := map[string]interface{}{}
	var body *sadl.HttpParamSpec
	vals := map[string]interface{}{}
	for _, in := range h.Inputs {
		x, ok := e.req[in.Name]
		switch {
		case in.Path:
			vals["{"+in.Name+"}"] = x
		case in.Query != "":
			if ok && x != "" {
				wantQ[in.Query] = x
			} else {
				r.Event("absent query")
				if in.Default != nil {
					r.Event("absent query with a default")
				}
			}
		case in.Header != "":
			if ok {
				wantHdr[in.Header] = x
			}
		default:
			if ok {
				body = in
			}
		}
	}
	got := strings.Split(req.URL.EscapedPath(), "/")
	want := strings.Split(path, "/")
	if len(got) != len(want) {
		return text, "path " + req.URL.String()
	}
	for i := range got {
		s, err := url.PathUnescape(got[i])
		if err != nil {
			return text, "path " + req.URL.String()
		}
		if x, ok := vals[want[i]]; ok {
			r.Event("path value")
			if !p.same(s, x) {
				return text, fmt.Sprintf("path value %q, want %v", s, x)
			}
		} else if s != want[i] {
			return text, "path " + req.URL.String()
		}
	}
	q, err := url.ParseQuery(req.URL.RawQuery)
	if err != nil || len(q) != len(wantQ) || len(wantQ) == 0 && strings.Contains(req.RequestURI, "?") {
		return text, fmt.Sprintf("query %q, want %v", req.URL.RawQuery, wantQ)
	}
	for k, x := range wantQ {
		r.Event("query value")
		if len(q[k]) != 1 || !p.same(q[k][0], x) {
			return text, fmt.Sprintf("query %s = %q, want %v", k, q[k], x)
		}
	}
	if len(req.Header) != len(wantHdr) {
		return text, fmt.Sprintf("headers %v, want %v", req.Header, wantHdr)
	}
	for k, x := range wantHdr {
		r.Event("request header")
		if l := req.Header.Values(k); len(l) != 1 || !p.same(l[0], x) {
			return text, fmt.Sprintf("header %s is %q, want %v", k, l, x)
		}
	}
	content := ""
	if body != nil {
		r.Event("request body")
		d := json.NewDecoder(strings.NewReader(text))
		var any interface{}
		if err := d.Decode(&any); err != nil {
			return text, fmt.Sprintf("body: %v", err)
		}
		content = text[:d.InputOffset()]
		text = text[d.InputOffset():]
		if !p.sameJSON(content, e.req[body.Name]) {
			return text, fmt.Sprintf("body %s, want %v", content, mon.JSON(e.req[body.Name]))
		}
		if !cut("\n") {
			return text, "no line end after the body"
		}
	}
	if !cut("\n") {
		return text, fmt.Sprintf("after the request: %.80q", text)
	}
	if e.res == nil && e.exc == nil {
		r.Event("no response")
		return text, ""
	}
	if !cut("#   Response:\n") {
		return text, fmt.Sprintf("no response: %.80q", text)
	}
	br := strings.NewReader(text)
	rd := bufio.NewReaderSize(br, 1<<20)
	res, err := http.ReadResponse(rd, &http.Request{Method: "GET"})
	if err != nil {
		return text, fmt.Sprintf("not an HTTP response: %v", err)
	}
	status := h.Expected.Status
	hdr := map[string]interface{}{"Content-Type": "application/json; charset=utf-8"}
	var rbody interface{}
	has := false
	if e.exc != nil {
		r.Event("exception")
		if status, rbody, has = e.exc.Status, e.body, true; status == 0 {
			r.Event("default exception")
			status = 500
		}
		if status == 304 {
			rbody, has = nil, false
			r.Event("no content")
		}
	} else {
		r.Event("response")
		for _, o := range h.Expected.Outputs {
			x, ok := e.res[o.Name]
			if !ok {
				continue
			}
			if o.Header != "" {
				hdr[o.Header] = x
				r.Event("response header")
			} else if status != 204 && status != 304 {
				rbody, has = x, true
			} else {
				r.Event("no content")
			}
		}
	}
	if res.StatusCode != int(status) || res.Proto != "HTTP/1.1" || res.Status != fmt.Sprintf("%d %s", status, http.StatusText(int(status))) {
		return text, "status " + res.Status
	}
	for k, x := range hdr {
		if l := res.Header.Values(k); len(l) != 1 || !p.same(l[0], x) {
			return text, fmt.Sprintf("header %s is %q, want %v", k, l, x)
		}
	}
	t, err := http.ParseTime(res.Header.Get("Date"))
	if err != nil || now.Sub(t) > time.Hour/2 || t.Sub(now) > time.Hour/2 {
		return text, fmt.Sprintf("date %q", res.Header.Get("Date"))
	}
	cl := res.Header.Get("Content-Length")
	if len(res.Header) != len(hdr)+2 {
		return text, fmt.Sprintf("headers %v, want %v", res.Header, hdr)
	}
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return text, fmt.Sprintf("response body: %v", err)
	}
	rest, _ := io.ReadAll(rd)
	if has {
		r.Event("response body")
		if !p.sameJSON(string(b), rbody) || cl != fmt.Sprint(len(b)) {
			return text, fmt.Sprintf("response body %q (length %s), want %s", b, cl, mon.JSON(rbody))
		}
	} else if len(b) != 0 || cl != "0" {
		return text, fmt.Sprintf("response body %q (length %s), want none", b, cl)
	}
	text = string(rest)
	if !cut("\n") {
		return text, fmt.Sprintf("after the response: %.80q", text)
	}
	return text, ""
}

func refuse(r *mon.Run, p *svc) {
	if len(p.s.Http) == 0 || !p.g.P(25) {
		return
	}
	s := *p.s
	h := s.Http[p.g.Intn(len(s.Http))]
	bad := p.g.PickS2("text", nil, true, []interface{}{"a"})
	n := sadl.Capitalize(h.Name)
	if p.g.Bool() {
		s.Examples = []*sadl.ExampleDef{{Target: n + "Request", Name: "odd", Example: bad}}
	} else {
		s.Examples = []*sadl.ExampleDef{{Target: n + "Response", Name: "odd", Example: bad}, {Target: n + "Request", Name: "odd", Example: map[string]interface{}{}}}
	}
	m, err := sadl.NewModel(&s)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	r.Note(mon.JSON(&s))
	mon.Capture(func() { err = httptrace.Export(m, sadl.NewData()) })
	r.Event("refused")
	if err == nil {
		r.Failf("not-refused", "an example %v was accepted", bad)
	}
}
