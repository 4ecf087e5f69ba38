// C15: a generated Go client and server carry every call over HTTP as the model says.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"

	"verif/gen"
	"verif/gox"
	"verif/mon"
)

func main() {
	mon.Main(mon.Spec{Prop: "C15", Quick: 2,
		Rule:        "random services generated to Go (client and server, server only, client only; with and without the runtime), compiled and run over loopback HTTP under several base URLs; each exchange is recorded at five points (request given to the client, request on the wire, request seen by the implementation, response on the wire, result of the client) and every point is compared with the model; then all calls of a service are repeated at the same time with one client and one server (some under the race detector) and must come out as alone; replies are the expected one, each exception, and an unexpected error; raw requests probe defaults, malformed bodies, unknown paths and methods; non-trivial = distinct service",
		Assumptions: []string{"a stand-in with the same matching rules replaces github.com/gorilla/mux, which is not available offline", "path, query and header parameters are strings, UUIDs, timestamps or integers (other types are refused by the generator)", "path parameters are not empty and have no slash; header values are printable ASCII", "the statuses of an action are distinct, an exception type with several statuses is sent with the first", "zero valued query and header parameters count as absent"},
		MinEvents:   map[string]int{"service": 60, "exchange": 700, "exception": 80, "unexpected error": 80, "raw request": 300, "malformed body": 40, "unknown path": 40, "default": 20, "path parameter": 200, "query parameter": 150, "header parameter": 60, "output header": 60, "refused": 8, "parallel exchange": 1000, "race detector batch": 4}},
		func(r *mon.Run) {
			r.Cases("batch", r.Scale(40, 240), func(i int, g *mon.Rand) { batch(r, g, i) })
		})
}

var typeKinds = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float64", "Decimal", "String", "String", "Timestamp", "UUID", "Array", "Map", "Struct", "Struct", "Struct", "Struct", "Enum", "Union"}
var fields = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any", "Array", "Map"}
var params = []string{"String", "Int8", "Int16", "Int32", "Int64", "UUID", "Timestamp"}

// a client alone sends more than a server takes
var clientParams = append([]string{"Bool", "Float32", "Float64", "Decimal"}, params...)

func isParam(t string) bool { return has(params, t) }

func has(l []string, t string) bool {
	for _, k := range l {
		if k == t {
			return true
		}
	}
	return false
}

type svc struct {
	s       *sadl.Schema
	m       *sadl.Model
	g       *gen.G
	conf    *sadl.Data
	v       *gox.Values
	name    string
	mode    int // 0 both, 1 server only, 2 client only
	runtime bool
	base    string
}

func service(rnd *mon.Rand, name string) *svc {
	p := &svc{runtime: rnd.P(20), name: name}
	p.mode = rnd.Pick0(0, 0, 0, 0, 1, 2)
	kinds, named := params, params
	if p.mode == 2 {
		kinds, named = clientParams, append([]string{"Enum"}, clientParams...)
	}
	g := gen.New(rnd, gen.Opts{Kinds: typeKinds, FieldKinds: fields, Recursive: true, NamedItems: true, MapKeyNamed: true, Hostile: true, Comments: true, EmptyStruct: true, UniqueSymbols: true, MinTypes: 3, MaxTypes: 9})
	s := g.Types()
	g.Http(gen.HttpOpts{Min: 1, Max: 5, Query: true, Headers: true, OutHeaders: true, Exceptions: true, RepeatExc: 30, DefaultExc: true, NoContent: true, ReqParams: true,
		Methods:    []string{"GET", "PUT", "POST", "DELETE", "PATCH", "OPTIONS", "HEAD"},
		ParamKinds: kinds, NamedParams: func(td *sadl.TypeDef) bool { return has(named, td.Type) },
		BodyTypes: func(td *sadl.TypeDef) bool { return td.Type != "Any" }, BodyKinds: []string{"String", "Int32", "Decimal", "Timestamp"}})
	p.s, p.g = s, g
	p.v = &gox.Values{S: s, G: g, Runtime: p.runtime}
	for _, h := range s.Http {
		var ex []*sadl.HttpExceptionSpec
		for _, e := range h.Exceptions {
			if e.Status != h.Expected.Status {
				ex = append(ex, e)
			}
		}
		h.Exceptions = ex
		for _, in := range h.Inputs {
			if in.Query != "" && p.mode != 2 && g.P(30) {
				switch t := p.v.Resolve(&in.TypeSpec).Type; t {
				case "String":
					d := g.Pick("dflt", "a b", "x\"y", "100%", "a&b=c", "C:\\dir", "\u00e9t\u00e9")
					if in.Default = d; g.Bool() { // as the parser has it
						in.Default = &d
					}
				case "Timestamp":
					ts, _ := sadl.ParseTimestamp("2001-02-03T04:05:06.007Z")
					text := ts.String()
					in.Default = g.PickS2(&ts, text, &text)
				case "UUID":
					in.Default = "f81d4fae-7dec-11d0-a765-00a0c91e6bf6"
				default:
					d, _ := sadl.ParseDecimal(g.Pick("7", "-3", "100", "0", "-128", "127"))
					if in.Default = d; g.P(30) { // as in models loaded from JSON
						in.Default = d.AsFloat64()
					}
				}
			}
			if in.Header == "Authorization" {
				in.Header = "x-lower"
			}
		}
		for _, o := range h.Expected.Outputs {
			if o.Header != "" {
				o.Type = g.Pick("String", "Int8", "Int64", "UUID", "Timestamp")
				if n := p.paramType(); n != "" && g.P(40) {
					o.Type = n
				}
			}
		}
	}
	p.conf = sadl.NewData()
	p.conf.Put("package", name)
	if p.mode != 2 {
		p.conf.Put("server", true)
	}
	if p.mode != 1 {
		p.conf.Put("client", true)
	}
	if p.runtime {
		p.conf.Put("runtime", true)
	}
	p.base = g.Pick("", "/", "/api", "/api/v1/")
	m, err := sadl.NewModel(s)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	p.m = m
	return p
}

func (p *svc) paramType() string {
	var c []string
	for _, td := range p.s.Types {
		if isParam(td.Type) {
			c = append(c, td.Name)
		}
	}
	if len(c) == 0 {
		return ""
	}
	return p.g.PickS(c)
}

// ---------------------------------------------------------------- vectors

type vector struct {
	Pkg, Action, Base string
	Req               string
	Reply, Body       string // ok, err, exc:Type
	Raw               *raw
	Fault             *fault
}

type raw struct {
	Method, Path, Body string
	Header             map[string]string
}

// fault is what another server answers instead of the generated one
type fault struct {
	Status int
	Body   string
	Header map[string]string
	Drop   bool
}

type answer struct {
	// request on the wire
	Method, Path, Query, ReqBody string
	ReqHeader                    map[string]string
	// implementation
	Calls        int
	Seen, SeenBy string
	// response on the wire
	Status    int
	ResBody   string
	ResHeader map[string]string
	// client
	Res, ErrType, ErrBody, Err string
	// what differed when all calls were made at the same time
	Together string
	Parallel int
	Panic    string
}

type probe struct {
	vector
	p    *svc
	h    *sadl.HttpDef
	req  map[string]interface{}
	res  map[string]interface{}
	exc  *sadl.HttpExceptionSpec
	body interface{}
	kind string
	want map[string]interface{} // expected request of a raw probe
}

func batch(r *mon.Run, rnd *mon.Rand, i int) {
	m := gox.NewModule(filepath.Join(r.Scratch(), "mod"))
	defer os.RemoveAll(m.Dir)
	if m.Race = i < 4 || (r.Thorough() && i%3 == 0); m.Race {
		r.Event("race detector batch")
	}
	m.Write("xch/xch.go", "package xch\n\ntype X struct {\n\tReply, Body string\n\tCalls int\n\tSeen, SeenBy string\n\tLook func(action, seen string) (string, string)\n}\n")
	imports, inits, calls, shared := "", "", "", ""
	var probes []*probe
	for k := 0; k < 7; k++ {
		name := fmt.Sprintf("pk%d", k)
		p := service(mon.NewRand(rnd.U64()), name)
		before := mon.JSON(p.m.Schema)
		r.Note(before + p.conf.String())
		r.Observe(before+p.conf.String(), true)
		var err error
		out := mon.Capture(func() { err = golang.Export(p.m, m.Dir, p.conf) })
		if err != nil {
			r.Failf("refused", "the generator refused the model: %v\n%s%s", err, out, before)
			continue
		}
		if after := mon.JSON(p.m.Schema); after != before {
			r.Failf("mutated", "generating changed the model\n%s\n%s", before, after)
		}
		r.Event("service")
		base := strings.ToLower(p.s.Name[:1]) + p.s.Name[1:]
		for suffix, want := range map[string]bool{"_model.go": true, "_server.go": p.mode != 2, "_client.go": p.mode != 1} {
			if _, err := os.Stat(filepath.Join(m.Dir, name, base+suffix)); (err == nil) != want {
				r.Failf("files", "file %s%s written: %v, expected: %v", base, suffix, err == nil, want)
			}
		}
		imports += fmt.Sprintf("\t%q\n", "gen/"+name)
		m.Write(name+"/impl.go", implFile(p))
		if p.mode != 2 {
			inits += fmt.Sprintf("\t%q: %s.Start,\n", name, name)
			probes = append(probes, rawProbes(r, p)...)
		}
		if p.mode != 1 {
			calls += fmt.Sprintf("\t%q: %s.Calls,\n", name, name)
			shared += fmt.Sprintf("\t%q: %s.Shared,\n", name, name)
		}
		if p.mode != 1 {
			probes = append(probes, clientProbes(r, p)...)
		}
		refuse(r, p)
	}
	m.Write("main.go", strings.NewReplacer("//IMPORTS", imports, "//INITS", inits, "//CALLS", calls, "//SHARED", shared).Replace(mainSrc))
	bin := filepath.Join(m.Dir, "bin.out")
	if err := m.Build(".", bin); err != nil {
		r.Failf("build", "generated packages do not build: %v", err)
		return
	}
	var vs []vector
	for _, p := range probes {
		vs = append(vs, p.vector)
	}
	var as []answer
	if err := m.Exec(bin, vs, &as); err != nil || len(as) != len(vs) {
		r.Failf("crash", "the program using the generated packages failed: %v", err)
		return
	}
	for k, p := range probes {
		p.judge(r, as[k])
	}
}

// ---------------------------------------------------------------- generated glue

// first is the exception whose status a server sends for the type of e.
func first(h *sadl.HttpDef, e *sadl.HttpExceptionSpec) *sadl.HttpExceptionSpec {
	for _, x := range h.Exceptions {
		if x.Type == e.Type {
			return x
		}
	}
	return e
}

func implFile(p *svc) string {
	var b strings.Builder
	b.WriteString("package " + p.name + "\n\nimport (\n\t\"encoding/json\"\n\t\"errors\"\n\t\"fmt\"\n\t\"net/http\"\n\n\t\"gen/xch\"\n)\n\nvar _ = http.NewRequest\nvar _ = fmt.Sprint\nvar _ = json.Marshal\nvar _ = errors.New\n\ntype implX struct{ x *xch.X }\n\nfunc (i *implX) see(action string, req interface{}) (string, string) {\n\tif i.x.Look != nil {\n\t\treturn i.x.Look(action, jsonText(req))\n\t}\n\ti.x.Calls++\n\ti.x.SeenBy = action\n\ti.x.Seen = jsonText(req)\n\treturn i.x.Reply, i.x.Body\n}\n\nfunc jsonText(v interface{}) string {\n\tb, err := json.Marshal(v)\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\treturn string(b)\n}\n\n")
	service := sadl.Capitalize(p.s.Name)
	for _, h := range p.s.Http {
		n := gox.Cap(h.Name)
		fmt.Fprintf(&b, "func (i *implX) %s(req *%sRequest) (*%sResponse, error) {\n\treply, body := i.see(%q, req)\n\tswitch reply {\n\tcase \"err\":\n\t\treturn nil, errors.New(body)\n", n, n, n, n)
		for k, e := range h.Exceptions {
			if first(h, e) != h.Exceptions[k] {
				continue
			}
			fmt.Fprintf(&b, "\tcase \"exc:%s\":\n\t\tvar e %s\n\t\tif err := json.Unmarshal([]byte(body), &e); err != nil {\n\t\t\tpanic(err)\n\t\t}\n\t\treturn nil, &e\n", e.Type, e.Type)
		}
		fmt.Fprintf(&b, "\t}\n\tvar res %sResponse\n\tif err := json.Unmarshal([]byte(body), &res); err != nil {\n\t\tpanic(err)\n\t}\n\treturn &res, nil\n}\n\n", n)
	}
	fmt.Fprintf(&b, "var _ %s = &implX{}\n\n", service)
	if p.mode != 2 {
		b.WriteString("func Start(x *xch.X, base string) http.Handler {\n\treturn InitServer(&implX{x}, base)\n}\n\n")
	}
	if p.mode != 1 {
		fmt.Fprintf(&b, "var _ = func(c *%sClient) %s { return c }\n\n", service, service)
		fmt.Fprintf(&b, "var Shared = func(target string) interface{} {\n\tc, err := NewClient(target)\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\treturn c\n}\n\n")
		b.WriteString("var Calls = map[string]func(target, req string, shared interface{}) (string, string, string, string){\n")
		for _, h := range p.s.Http {
			n := gox.Cap(h.Name)
			fmt.Fprintf(&b, "\t%q: func(target, req string, shared interface{}) (string, string, string, string) {\n\t\tc, ok := shared.(*%sClient)\n\t\tif !ok {\n\t\t\tvar err error\n\t\t\tif c, err = NewClient(target); err != nil {\n\t\t\t\tpanic(err)\n\t\t\t}\n\t\t}\n\t\tvar q %sRequest\n\t\tif err := json.Unmarshal([]byte(req), &q); err != nil {\n\t\t\tpanic(err)\n\t\t}\n\t\tres, err := c.%s(&q)\n\t\tif err != nil {\n\t\t\tif res != nil {\n\t\t\t\tpanic(\"both a response and an error\")\n\t\t\t}\n\t\t\treturn \"\", fmt.Sprintf(\"%%T\", err), jsonText(err), \"error: \" + err.Error()\n\t\t}\n\t\treturn jsonText(res), \"\", \"\", \"\"\n\t},\n", n, service, n, n)
		}
		b.WriteString("}\n")
	}
	return b.String()
}

const mainSrc = `package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"sync/atomic"

	"gen/xch"
//IMPORTS)

var starts = map[string]func(*xch.X, string) http.Handler{
//INITS}

var calls = map[string]map[string]func(target, req string, shared interface{}) (string, string, string, string){
//CALLS}

var shared = map[string]func(string) interface{}{
//SHARED}

type raw struct {
	Method, Path, Body string
	Header map[string]string
}

type vector struct {
	Pkg, Action, Base, Req, Reply, Body string
	Raw *raw
	Fault *fault
}

type fault struct {
	Status int
	Body string
	Header map[string]string
	Drop bool
}

type answer struct {
	Method, Path, Query, ReqBody string
	ReqHeader map[string]string
	Calls int
	Seen, SeenBy string
	Status int
	ResBody string
	ResHeader map[string]string
	Res, ErrType, ErrBody, Err, Panic string
	Together string
	Parallel int
}

type rec struct {
	http.ResponseWriter
	status int
	body bytes.Buffer
}

func (r *rec) WriteHeader(s int) { r.status = s; r.ResponseWriter.WriteHeader(s) }
func (r *rec) Write(b []byte) (int, error) {
	if r.status == 0 {
		r.status = 200
	}
	r.body.Write(b)
	return r.ResponseWriter.Write(b)
}

func flat(h http.Header) map[string]string {
	m := map[string]string{}
	for k, v := range h {
		m[k] = strings.Join(v, "|")
	}
	return m
}

func one(v vector) (a answer) {
	defer func() {
		if p := recover(); p != nil {
			a.Panic = fmt.Sprint(p)
		}
	}()
	x := &xch.X{Reply: v.Reply, Body: v.Body}
	var h http.Handler
	if mk := starts[v.Pkg]; mk != nil {
		h = mk(x, "http://localhost:1"+v.Base)
	}
	ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		defer func() {
			if p := recover(); p != nil {
				a.Panic = fmt.Sprint("server: ", p)
			}
		}()
		b, _ := io.ReadAll(r.Body)
		r.Body = io.NopCloser(bytes.NewReader(b))
		a.Method, a.Path, a.Query, a.ReqBody = r.Method, r.URL.Path, r.URL.RawQuery, string(b)
		a.ReqHeader = flat(r.Header)
		rw := &rec{ResponseWriter: w}
		if f := v.Fault; f != nil {
			if f.Drop {
				c, _, err := w.(http.Hijacker).Hijack()
				if err != nil {
					panic(err)
				}
				c.Close()
				return
			}
			rw.Header().Set("Content-Type", "application/json")
			for k, s := range f.Header {
				rw.Header().Set(k, s)
			}
			rw.WriteHeader(f.Status)
			rw.Write([]byte(f.Body))
			a.Status, a.ResBody = rw.status, rw.body.String()
			return
		}
		h.ServeHTTP(rw, r)
		a.Status, a.ResBody = rw.status, rw.body.String()
		a.ResHeader = flat(rw.Header())
	}))
	defer ts.Close()
	if v.Raw != nil {
		req, err := http.NewRequest(v.Raw.Method, ts.URL+v.Raw.Path, strings.NewReader(v.Raw.Body))
		if err != nil {
			panic(err)
		}
		for k, s := range v.Raw.Header {
			req.Header.Set(k, s)
		}
		res, err := http.DefaultClient.Do(req)
		if err != nil {
			panic(err)
		}
		io.ReadAll(res.Body)
		res.Body.Close()
	} else {
		a.Res, a.ErrType, a.ErrBody, a.Err = calls[v.Pkg][v.Action](ts.URL+strings.TrimSuffix(v.Base, "/"), v.Req, nil)
	}
	a.Calls, a.Seen, a.SeenBy = x.Calls, x.Seen, x.SeenBy
	return
}

// together repeats the calls of every service at the same time, with one client and one server, and adds what came out differently.
func together(vs []vector, as []answer) {
	for pkg, mk := range shared {
		if starts[pkg] == nil {
			continue
		}
		type reply struct {
			reply, body string
			n, want int64
		}
		look := map[string]*reply{}
		var ids []int
		base := ""
		for i, v := range vs {
			if v.Pkg == pkg && v.Raw == nil && v.Fault == nil && as[i].Calls == 1 && as[i].Panic == "" {
				k := as[i].SeenBy + " " + as[i].Seen
				if look[k] == nil { // the same request may not have two replies
					look[k] = &reply{reply: v.Reply, body: v.Body}
					ids = append(ids, i)
					base = v.Base
				}
			}
		}
		var unknown, done int64
		x := &xch.X{Look: func(action, seen string) (string, string) {
			l := look[action+" "+seen]
			if l == nil {
				atomic.AddInt64(&unknown, 1)
				return "err", "unknown request " + action + " " + seen
			}
			atomic.AddInt64(&l.n, 1)
			return l.reply, l.body
		}}
		ts := httptest.NewServer(starts[pkg](x, "http://localhost:1"+base))
		c := mk(ts.URL+strings.TrimSuffix(base, "/"))
		var wg sync.WaitGroup
		var mu sync.Mutex
		start := make(chan bool)
		for round := 0; round < 3; round++ {
			for _, i := range ids {
				wg.Add(1)
				look[as[i].SeenBy+" "+as[i].Seen].want++
				go func(i int) {
					defer wg.Done()
					<-start
					defer func() {
						if p := recover(); p != nil {
							mu.Lock()
							as[i].Together += fmt.Sprintf("panic: %v\n", p)
							mu.Unlock()
						}
					}()
					res, et, eb, _ := calls[pkg][vs[i].Action](ts.URL, vs[i].Req, c)
					mu.Lock()
					done++
					if res != as[i].Res || et != as[i].ErrType || eb != as[i].ErrBody {
						as[i].Together += fmt.Sprintf("result %s %s %s\n", res, et, eb)
					}
					mu.Unlock()
				}(i)
			}
		}
		close(start)
		wg.Wait()
		ts.Close()
		for _, i := range ids {
			l := look[as[i].SeenBy+" "+as[i].Seen]
			if l.n != l.want || unknown > 0 {
				as[i].Together += fmt.Sprintf("made %d calls, the implementation got %d, and %d that nobody made\n", l.want, l.n, unknown)
			}
			as[i].Parallel = len(ids) * 3
		}
	}
}

func main() {
	var vs []vector
	if err := json.NewDecoder(os.Stdin).Decode(&vs); err != nil {
		panic(err)
	}
	as := []answer{}
	for _, v := range vs {
		as = append(as, one(v))
	}
	together(vs, as)
	json.NewEncoder(os.Stdout).Encode(as)
}
`

// ---------------------------------------------------------------- probes

func printable(x interface{}) bool {
	s, ok := x.(string)
	if !ok {
		return true
	}
	for _, c := range s {
		if c < ' ' || c > '~' {
			return false
		}
	}
	return strings.TrimSpace(s) == s
}

func (p *svc) request(h *sadl.HttpDef) map[string]interface{} {
	m := map[string]interface{}{}
	for _, in := range h.Inputs {
		if !in.Path && (in.Query != "" || in.Header != "") && p.g.P(25) {
			continue
		}
		for {
			m[in.Name] = p.v.Value(&in.TypeSpec, 0)
			if in.Header == "" || printable(m[in.Name]) {
				break
			}
		}
	}
	return m
}

func (p *svc) response(h *sadl.HttpDef) map[string]interface{} {
	m := map[string]interface{}{}
	for _, o := range h.Expected.Outputs {
		for {
			m[o.Name] = p.v.Value(&o.TypeSpec, 0)
			if o.Header == "" || printable(m[o.Name]) {
				break
			}
		}
		if (o.Header == "Last-Modified" || o.Header == "Expires") && p.v.Resolve(&o.TypeSpec).Type == "Timestamp" {
			m[o.Name] = "2019-02-03T22:48:19.000Z"
		}
	}
	return m
}

func clientProbes(r *mon.Run, p *svc) []*probe {
	var ps []*probe
	for _, h := range p.s.Http {
		n := gox.Cap(h.Name)
		add := func(reply string) *probe {
			q := &probe{p: p, h: h, kind: reply}
			q.req = p.request(h)
			q.vector = vector{Pkg: p.name, Action: n, Base: p.base, Req: mon.JSON(q.req), Reply: reply}
			ps = append(ps, q)
			return q
		}
		if p.mode == 2 { // the server is another one
			for k := 0; k < 6; k++ {
				q := add("served")
				q.res = p.response(h)
				q.Fault = &fault{Status: int(h.Expected.Status), Header: map[string]string{}}
				for _, o := range h.Expected.Outputs {
					if o.Header == "" {
						q.Fault.Body = mon.JSON(q.res[o.Name])
					} else {
						q.Fault.Header[o.Header] = p.onWire(o, q.res[o.Name])
					}
				}
			}
			for _, e := range h.Exceptions {
				if e.Status != 0 {
					q := add("fault")
					q.exc = e
					q.body = p.v.Value(&sadl.TypeSpec{Type: e.Type}, 0)
					q.Fault = &fault{Status: int(e.Status), Body: mon.JSON(q.body)}
				}
			}
		}
		for k := 0; k < 4 && p.mode == 0; k++ {
			q := add("ok")
			q.res = p.response(h)
			q.Body = mon.JSON(q.res)
		}
		for _, e := range h.Exceptions {
			if p.mode == 2 {
				break
			}
			q := add("exc:" + e.Type)
			q.exc = first(h, e)
			q.body = p.v.Value(&sadl.TypeSpec{Type: e.Type}, 0)
			q.Body = mon.JSON(q.body)
		}
		if p.mode == 0 {
			q := add("err")
			q.Body = p.g.Pick("boom", "it \"broke\"", "<x>")
		}
		junk := p.g.Pick("{", "", "[1,", "nul", "\x01", "{\"a\":")
		add("fault").Fault = &fault{Drop: true}
		odd := p.g.Pick0(207, 299, 402, 405, 501, 502, 504)
		add("fault").Fault = &fault{Status: odd, Body: p.g.Pick("", "{}", "{\"message\":\"x\"}", junk)}
		for _, o := range h.Expected.Outputs {
			if o.Header == "" && h.Method != "HEAD" {
				add("fault").Fault = &fault{Status: int(h.Expected.Status), Body: junk}
			}
		}
		for _, e := range h.Exceptions {
			if st := int(e.Status); st != 0 {
				if st != 304 && h.Method != "HEAD" {
					add("fault").Fault = &fault{Status: st, Body: junk}
				}
			} else {
				q := add("fault")
				q.exc = e
				q.body = p.v.Value(&sadl.TypeSpec{Type: e.Type}, 0)
				q.Fault = &fault{Status: odd, Body: mon.JSON(q.body)}
			}
		}
	}
	return ps
}

// onWire is the value of a response header.
func (p *svc) onWire(o *sadl.HttpParamSpec, x interface{}) string {
	w := p.text(x)
	if (o.Header == "Last-Modified" || o.Header == "Expires") && p.v.Resolve(&o.TypeSpec).Type == "Timestamp" {
		t, err := time.Parse("2006-01-02T15:04:05.999Z", w)
		if err != nil {
			mon.Bug("%v", err)
		}
		w = t.UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")
	}
	return w
}

// same tells whether two texts are the same value of a parameter: of numbers with a fraction there are several.
func (p *svc) same(in *sadl.HttpParamSpec, a, b string) bool {
	switch bits := 64; p.v.Resolve(&in.TypeSpec).Type {
	case "Float32":
		bits = 32
		fallthrough
	case "Float64":
		x, e1 := strconv.ParseFloat(a, bits)
		y, e2 := strconv.ParseFloat(b, bits)
		return e1 == nil && e2 == nil && x == y
	case "Decimal":
		x, ok1 := new(big.Rat).SetString(a)
		y, ok2 := new(big.Rat).SetString(b)
		return ok1 && ok2 && x.Cmp(y) == 0
	}
	return a == b
}

// text of a parameter on the wire
func (p *svc) text(x interface{}) string { return fmt.Sprint(x) }

func rawProbes(r *mon.Run, p *svc) []*probe {
	var ps []*probe
	base := strings.TrimSuffix(p.base, "/")
	for _, h := range p.s.Http {
		path := h.Path
		if i := strings.IndexByte(path, '?'); i >= 0 {
			path = path[:i]
		}
		req := p.request(h)
		hdr := map[string]string{}
		var qs []string
		body := ""
		want := map[string]interface{}{}
		for _, in := range h.Inputs {
			v, ok := req[in.Name]
			switch {
			case in.Path:
				path = strings.Replace(path, "{"+in.Name+"}", url.PathEscape(p.text(v)), 1)
			case in.Query != "":
				if ok {
					qs = append(qs, in.Query+"="+url.QueryEscape(p.text(v)))
				} else if in.Default != nil {
					v = plainDefault(in.Default)
					ok = true
					r.Event("default")
				}
			case in.Header != "":
				if ok {
					hdr[in.Header] = p.text(v)
				}
			default:
				body = mon.JSON(v)
			}
			if ok {
				want[in.Name] = v
			}
		}
		if p.g.Bool() {
			qs = append(qs, "unrelated=1")
		}
		for i, j := range p.g.Perm(len(qs)) {
			qs[i], qs[j] = qs[j], qs[i]
		}
		u := base + path
		if len(qs) > 0 {
			u += "?" + strings.Join(qs, "&")
		}
		res := p.response(h)
		mk := func(kind, method, u, body string) *probe {
			q := &probe{p: p, h: h, kind: kind, res: res, want: want, req: req}
			q.vector = vector{Pkg: p.name, Action: gox.Cap(h.Name), Base: p.base, Reply: "ok", Body: mon.JSON(res), Raw: &raw{Method: method, Path: u, Body: body, Header: hdr}}
			ps = append(ps, q)
			return q
		}
		mk("raw", h.Method, u, body)
		if body != "" {
			mk("malformed", h.Method, u, p.g.Pick("{", "", "[1,", "nul", "\x01"))
		}
		mk("nowhere", h.Method, base+"/no/such/path/at/all/"+p.g.Pick("a", "b"), body)
	}
	return ps
}

// result is what the client returns of a response: no body to a HEAD request.
func (q *probe) result(x interface{}) interface{} {
	m, ok := x.(map[string]interface{})
	if q.h.Method != "HEAD" || !ok {
		return x
	}
	r := map[string]interface{}{}
	for _, o := range q.h.Expected.Outputs {
		if v, ok := m[o.Name]; ok && o.Header != "" {
			r[o.Name] = v
		}
	}
	return r
}

func (q *probe) spec(in bool) *sadl.TypeSpec {
	ts := &sadl.TypeSpec{Type: "Struct"}
	if in {
		for _, x := range q.h.Inputs {
			ts.Fields = append(ts.Fields, &x.StructFieldDef)
		}
	} else {
		for _, x := range q.h.Expected.Outputs {
			ts.Fields = append(ts.Fields, &x.StructFieldDef)
		}
	}
	return ts
}

func dec(s string) interface{} {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return "undecodable " + s
	}
	return v
}

func (q *probe) judge(r *mon.Run, a answer) {
	v := q.p.v
	fail := func(sig, f string, args ...interface{}) {
		r.Failf(sig, "%s\nvector %s\nrecorded %s\naction %s\nmodel %s", fmt.Sprintf(f, args...), mon.JSON(q.vector), mon.JSON(a), mon.JSON(q.h), mon.JSON(q.p.s))
	}
	if a.Panic != "" {
		fail("crash", "the exchange crashed: %s", a.Panic)
		return
	}
	if a.Parallel > 0 {
		r.EventN("parallel exchange", 3)
		if a.Together != "" {
			fail("together", "a call among %d simultaneous ones with one client and one server differs from the call alone: %s", a.Parallel, a.Together)
		}
	}
	if q.Raw != nil {
		r.Event("raw request")
	} else {
		r.Event("exchange")
	}
	if q.kind == "served" {
		r.Event("another server")
		q.wire(r, a, fail)
		if a.Err != "" {
			fail("client-error", "the client failed: %s", a.Err)
		} else if w, g := v.Canon(q.spec(false), q.result(q.res)), v.Canon(q.spec(false), q.result(dec(a.Res))); w != g {
			fail("response", "the client returned %s, want %s", g, w)
		}
		return
	}
	if q.Fault != nil {
		r.Event("faulty server")
		if a.Err == "" {
			fail("fault", "the client returned %s and no error although the server answered %s", a.Res, mon.JSON(q.Fault))
		}
		q.wire(r, a, fail)
		if q.exc != nil {
			r.Event("default exception")
			ts := &sadl.TypeSpec{Type: q.exc.Type}
			if a.ErrType != "*"+q.p.name+"."+q.exc.Type {
				fail("client-error", "the client returned a %s, want %s", a.ErrType, q.exc.Type)
			} else if w, g := v.Canon(ts, q.body), v.Canon(ts, dec(a.ErrBody)); w != g && q.Fault.Status != 304 && q.h.Method != "HEAD" {
				fail("client-error", "the client returned %s, want %s", g, w)
			}
		}
		return
	}
	if ct := a.ResHeader["Content-Type"]; ct != "application/json" {
		fail("content-type", "response content type %q", ct)
	}
	switch q.kind {
	case "nowhere":
		r.Event("unknown path")
		if a.Status != 404 || a.Calls != 0 {
			fail("not-found", "an unknown path gives %d (%d calls)", a.Status, a.Calls)
		}
		return
	case "malformed":
		r.Event("malformed body")
		if a.Status != 400 || a.Calls != 0 {
			fail("malformed", "a malformed body gives %d (%d calls)", a.Status, a.Calls)
		}
		return
	}
	// the implementation saw the request
	if a.Calls != 1 || a.SeenBy != gox.Cap(q.h.Name) {
		fail("calls", "%d calls of %s", a.Calls, a.SeenBy)
		return
	}
	want := q.want
	if q.Raw == nil {
		want = map[string]interface{}{}
		for k, x := range q.req {
			want[k] = x
		}
		for _, in := range q.h.Inputs {
			if _, ok := q.req[in.Name]; !ok && in.Default != nil {
				want[in.Name] = plainDefault(in.Default)
				r.Event("default")
			}
		}
	}
	if w, g := q.canonReq(want), q.canonReq(dec(a.Seen)); w != g {
		fail("request", "the implementation saw %s, sent %s", g, w)
	}
	if q.Raw == nil {
		q.wire(r, a, fail)
	}
	// the response on the wire
	switch {
	case q.exc != nil:
		r.Event("exception")
		st := int(q.exc.Status)
		if st == 0 {
			st = 500
		}
		if a.Status != st {
			fail("status", "exception status %d, want %d", a.Status, st)
		}
		ts := &sadl.TypeSpec{Type: q.exc.Type}
		if st == 304 || q.h.Method == "HEAD" { // has no body
			r.Event("exception without a body")
			if a.ErrType != "*"+q.p.name+"."+q.exc.Type {
				fail("client-error", "the client returned a %s, want %s", a.ErrType, q.exc.Type)
			}
			return
		}
		if w, g := v.Canon(ts, q.body), v.Canon(ts, dec(a.ResBody)); w != g {
			fail("body", "exception body %s, want %s", g, w)
		}
		if a.ErrType != "*"+q.p.name+"."+q.exc.Type {
			fail("client-error", "the client returned a %s, want %s", a.ErrType, q.exc.Type)
		} else if w, g := v.Canon(ts, q.body), v.Canon(ts, dec(a.ErrBody)); w != g {
			fail("client-error", "the client returned %s, want %s", g, w)
		}
		return
	case q.kind == "err":
		r.Event("unexpected error")
		m, _ := dec(a.ResBody).(map[string]interface{})
		if a.Status != 500 || m["message"] != q.Body {
			fail("status", "an unexpected error gives %d %s", a.Status, a.ResBody)
		}
		if a.Err == "" {
			fail("client-error", "the client reported no error for an unexpected one")
		}
		return
	}
	if a.Status != int(q.h.Expected.Status) {
		fail("status", "status %d, want %d", a.Status, q.h.Expected.Status)
	}
	for _, o := range q.h.Expected.Outputs {
		x := q.res[o.Name]
		if o.Header == "" {
			if q.h.Method == "HEAD" {
				r.Event("no body to a HEAD request")
			} else if w, g := v.Canon(&o.TypeSpec, x), v.Canon(&o.TypeSpec, dec(a.ResBody)); w != g {
				fail("body", "response body %s, want %s", g, w)
			}
			continue
		}
		r.Event("output header")
		w := q.p.onWire(o, x)
		got := ""
		for k, g := range a.ResHeader {
			if strings.EqualFold(k, o.Header) {
				got = g
			}
		}
		if got != w {
			fail("header", "response header %s is %q, want %q", o.Header, got, w)
		}
	}
	if q.Raw != nil {
		return
	}
	if a.Err != "" {
		fail("client-error", "the client failed: %s", a.Err)
		return
	}
	if w, g := v.Canon(q.spec(false), q.result(q.res)), v.Canon(q.spec(false), q.result(dec(a.Res))); w != g {
		fail("response", "the client returned %s, want %s", g, w)
	}
}

// canonReq: absent and zero parameters count as the same
func (q *probe) canonReq(x interface{}) string {
	ts := q.spec(true)
	c := &sadl.TypeSpec{Type: "Struct"}
	for _, f := range ts.Fields {
		f2 := *f
		f2.Required = false
		c.Fields = append(c.Fields, &f2)
	}
	return q.p.v.Canon(c, x)
}

// wire compares the request on the wire with the model.
func (q *probe) wire(r *mon.Run, a answer, fail func(sig, f string, args ...interface{})) {
	path := q.h.Path
	if i := strings.IndexByte(path, '?'); i >= 0 {
		path = path[:i]
	}
	wantQ := url.Values{}
	gotQ, err := url.ParseQuery(a.Query)
	for _, in := range q.h.Inputs {
		x, ok := q.req[in.Name]
		switch {
		case in.Path:
			r.Event("path parameter")
			t := q.p.text(x)
			for i, seg := range strings.Split(path, "/") {
				if l := strings.Split(strings.TrimPrefix(a.Path, strings.TrimSuffix(q.p.base, "/")), "/"); seg == "{"+in.Name+"}" && i < len(l) && q.p.same(in, l[i], t) {
					t = l[i]
				}
			}
			path = strings.Replace(path, "{"+in.Name+"}", t, 1)
		case in.Query != "":
			if ok {
				r.Event("query parameter")
				t := q.p.text(x)
				if g := gotQ.Get(in.Query); q.p.same(in, g, t) {
					t = g
				}
				wantQ.Set(in.Query, t)
			}
		case in.Header != "":
			got, has := "", false
			for k, g := range a.ReqHeader {
				if strings.EqualFold(k, in.Header) {
					got, has = g, true
				}
			}
			if ok {
				r.Event("header parameter")
				if !q.p.same(in, got, q.p.text(x)) {
					fail("wire", "request header %s is %q, want %q", in.Header, got, q.p.text(x))
				}
			} else if has {
				fail("wire", "request header %s is sent although unset", in.Header)
			}
		default:
			if w, g := q.p.v.Canon(&in.TypeSpec, x), q.p.v.Canon(&in.TypeSpec, dec(a.ReqBody)); w != g {
				fail("wire", "request body %s, want %s", g, w)
			}
			if a.ReqHeader["Content-Type"] != "application/json" {
				fail("wire", "request content type %q", a.ReqHeader["Content-Type"])
			}
		}
	}
	if a.Method != q.h.Method {
		fail("wire", "method %s", a.Method)
	}
	if w := strings.TrimSuffix(q.p.base, "/") + path; a.Path != w {
		fail("wire", "path %q, want %q", a.Path, w)
	}
	if err != nil || gotQ.Encode() != wantQ.Encode() {
		fail("wire", "query %q, want %q", a.Query, wantQ.Encode())
	}
}

// refuse: parameters that the server cannot convert must be refused, and two responses that the client cannot tell apart.
func refuse(r *mon.Run, p *svc) {
	if len(p.s.Http) == 0 {
		return
	}
	if p.mode != 1 {
		refuseSame(r, p)
	}
	odd := []string{"Bool", "Float64", "Decimal", "Any", "Bytes"}
	if p.mode == 2 {
		odd = []string{"Any", "Bytes"}
		for _, td := range p.s.Types {
			if has([]string{"Array", "Map", "Struct", "Union"}, td.Type) {
				odd = append(odd, td.Name)
			}
		}
	}
	s := *p.s
	h := *s.Http[0]
	in := &sadl.HttpParamSpec{Query: "oddq"}
	if p.mode == 2 && p.g.Bool() {
		in = &sadl.HttpParamSpec{Header: "X-Odd"}
	}
	in.Name, in.Type = "odd", p.g.PickS(odd)
	h.Inputs = append(append([]*sadl.HttpParamSpec{}, h.Inputs...), in)
	s.Http = append([]*sadl.HttpDef{&h}, s.Http[1:]...)
	m, err := sadl.NewModel(&s)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	dir := filepath.Join(r.Scratch(), "refuse")
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	mon.Capture(func() { err = golang.Export(m, dir, p.conf) })
	r.Event("refused")
	if err == nil {
		r.Failf("not-refused", "a %s query parameter was generated without an error", in.Type)
		return
	}
	base := strings.ToLower(p.s.Name[:1]) + p.s.Name[1:]
	for _, f := range []string{"_server.go", "_client.go"} {
		if _, err := os.Stat(filepath.Join(dir, p.name, base+f)); err == nil && (f == "_server.go") == (p.mode != 2) {
			r.Failf("not-refused", "a %s query parameter was refused, but %s was written", in.Type, f)
		}
	}
}

func refuseSame(r *mon.Run, p *svc) {
	var e1, e2 string
	for _, td := range p.s.Types {
		if td.Type == "Struct" {
			e1, e2 = e2, td.Name
		}
	}
	if e1 == "" {
		return
	}
	s := *p.s
	h := *s.Http[0]
	st := int32(p.g.Pick0(0, 404, 409, int(h.Expected.Status)))
	h.Exceptions = []*sadl.HttpExceptionSpec{{Type: e1, Status: st}}
	if st != h.Expected.Status {
		h.Exceptions = append(h.Exceptions, &sadl.HttpExceptionSpec{Type: e2, Status: st})
	}
	s.Http = append([]*sadl.HttpDef{&h}, s.Http[1:]...)
	m, err := sadl.NewModel(&s)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	dir := filepath.Join(r.Scratch(), "refuse")
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	mon.Capture(func() { err = golang.Export(m, dir, p.conf) })
	r.Event("refused")
	if err == nil {
		r.Failf("not-refused", "an action with two responses for status %d was generated without an error", st)
	}
}

// plainDefault is the value that a default stands for, whatever its representation in the model.
func plainDefault(v interface{}) interface{} {
	switch d := v.(type) {
	case *sadl.Decimal:
		return json.Number(d.String())
	case *sadl.Timestamp:
		return d.String()
	case *string:
		return *d
	case float64:
		return json.Number(fmt.Sprint(d))
	}
	return v
}
