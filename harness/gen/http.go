package gen

import (
	"fmt"
	"strings"

	"github.com/boynton/sadl"
)

type HttpOpts struct {
	Methods       []string
	ParamKinds    []string                 // base kinds for path/query/header params
	NamedParams   func(*sadl.TypeDef) bool // named types acceptable as params
	BodyTypes     func(*sadl.TypeDef) bool // named types acceptable as bodies
	BodyKinds     []string                 // base kinds acceptable as bodies
	Headers       bool
	OutHeaders    bool
	Query         bool
	Exceptions    bool
	ExcTypes      func(*sadl.TypeDef) bool
	RepeatExc     int  // percentage of exceptions that have the type of another of the action
	UniqueStatus  bool // exceptions have distinct statuses
	DistinctPaths bool // every action has its own path
	Min, Max      int
	NoContent     bool // allow 204/304 without body
	RequireBody   bool // POST/PUT always have a body
	Resource      bool
	Defaults      bool
	ArrayParams   bool
	ParamCons     bool // inline constraints on base-typed params
	ReqParams     bool // query and header params may be required
	DefaultExc    bool // an exception may have no status
	Partial       bool // path segments may mix text and variables
}

var excStatus = []int32{304, 400, 401, 403, 404, 409, 410, 418, 422, 429, 500, 503}

func (g *G) httpParamType(h HttpOpts) string {
	if h.NamedParams != nil && g.P(35) {
		if n := g.named(h.NamedParams); n != "" {
			return n
		}
	}
	return g.PickS(h.ParamKinds)
}

func (g *G) bodyType(h HttpOpts) string {
	if n := g.named(h.BodyTypes); n != "" && (len(h.BodyKinds) == 0 || g.P(75)) {
		return n
	}
	if len(h.BodyKinds) > 0 {
		return g.PickS(h.BodyKinds)
	}
	return ""
}

// Http adds http actions to the schema.
func (g *G) Http(h HttpOpts) {
	if h.Max == 0 {
		h.Min, h.Max = 1, 5
	}
	if h.Methods == nil {
		h.Methods = []string{"GET", "PUT", "POST", "DELETE"}
	}
	if h.ParamKinds == nil {
		h.ParamKinds = []string{"String", "Int32", "Int64", "Bool"}
	}
	if h.BodyTypes == nil {
		h.BodyTypes = func(td *sadl.TypeDef) bool { return td.Type == "Struct" }
	}
	used := map[string]bool{}
	pathsUsed := map[string]bool{}
	n := g.many(bigHttp, h.Min, h.Max, h.Max+10)
	for i := 0; i < n; i++ {
		method := g.PickS(h.Methods)
		noun := g.PickS(typeWords)
		name := strings.ToLower(method) + noun
		if g.P(30) {
			name += fmt.Sprint(i)
		}
		if used[strings.ToLower(name)] || g.names[strings.ToLower(name)+"request"] {
			continue
		}
		names := map[string]bool{}
		hd := &sadl.HttpDef{Name: name, Method: method, Comment: g.maybeComment(40), Annotations: g.annos(15)}
		path := "/" + strings.ToLower(noun) + "s"
		var ins []*sadl.HttpParamSpec
		for k, m := 0, g.many(bigHttp, 0, 2, 6); k < m; k++ {
			p := &sadl.HttpParamSpec{Path: true}
			p.Name = g.FieldName(names)
			p.Type = g.httpParamType(h)
			p.Required = true
			seg := "{" + p.Name + "}"
			if h.Partial && g.P(25) {
				seg = g.Pick("v", "item-", "", "at:") + seg + g.Pick("", ".json", "_x")
			}
			path += "/" + seg
			if g.P(30) {
				path += "/" + g.Pick("items", "detail", "sub")
			}
			ins = append(ins, p)
		}
		shape := method + " " + stripParams(path)
		if h.DistinctPaths {
			shape = stripParams(path)
		}
		if pathsUsed[shape] {
			continue
		}
		pathsUsed[shape] = true
		used[strings.ToLower(name)] = true
		var q []string
		if h.Query {
			for k, m := 0, g.many(bigHttp, 0, 2, 12); k < m; k++ {
				p := &sadl.HttpParamSpec{}
				p.Name = g.FieldName(names)
				p.Query = p.Name
				if g.P(30) {
					p.Query = "q" + fmt.Sprint(k) + g.Pick("x", "Y", "-size", ".by", "_z", "[s]")
					if k == 0 && g.P(20) {
						p.Query = g.Pick("$top", "page-size", "page[size]", "a.b")
					}
				}
				p.Type = g.httpParamType(h)
				q = append(q, p.Query+"={"+p.Name+"}")
				ins = append(ins, p)
			}
		}
		if len(q) > 0 {
			path += "?" + strings.Join(q, "&")
		}
		hd.Path = path
		if h.Headers {
			hs := []string{"X-Request-Id", "If-None-Match", "X-Trace", "Authorization", "x-api-version"}
			hp := g.Perm(len(hs))
			for k, m := 0, g.many(bigHttp, 0, 1, len(hs)); k < m; k++ {
				p := &sadl.HttpParamSpec{}
				p.Name = g.FieldName(names)
				p.Header = hs[hp[k]]
				p.Type = g.httpParamType(h)
				ins = append(ins, p)
			}
		}
		for _, p := range ins {
			if g.O.FieldComments {
				p.Comment = g.maybeComment(30)
			}
			if h.ReqParams && g.P(30) {
				p.Required = true
			}
			if h.ArrayParams && !p.Path && g.P(12) {
				p.Type = "Array"
				p.Items = g.PickS(h.ParamKinds)
			}
			if h.ParamCons && g.P(30) {
				g.Constrain(&p.TypeSpec)
			}
		}
		if method == "POST" || method == "PUT" || method == "PATCH" {
			if h.RequireBody || g.P(85) {
				if bt := g.bodyType(h); bt != "" {
					p := &sadl.HttpParamSpec{}
					p.Name = g.FieldName(names)
					p.Type = bt
					p.Required = true
					if g.O.FieldComments {
						p.Comment = g.maybeComment(30)
					}
					ins = append(ins, p)
				}
			}
		}
		if g.P(25) { // in any order
			var mixed []*sadl.HttpParamSpec
			for _, k := range g.Perm(len(ins)) {
				mixed = append(mixed, ins[k])
			}
			ins = mixed
		}
		hd.Inputs = ins
		hd.Expected = &sadl.HttpExpectedSpec{Status: 200}
		if g.O.FieldComments {
			hd.Expected.Comment = g.maybeComment(30)
		}
		if method == "POST" || g.P(15) {
			hd.Expected.Status = []int32{200, 201, 202, 203, 206}[g.Intn(5)]
		}
		if h.NoContent && (method == "DELETE" || g.P(10)) {
			hd.Expected.Status = []int32{204, 204, 304}[g.Intn(3)]
		}
		onames := map[string]bool{}
		if hd.Expected.Status != 204 && hd.Expected.Status != 304 {
			if bt := g.bodyType(h); bt != "" {
				p := &sadl.HttpParamSpec{}
				p.Name = g.FieldName(onames)
				p.Type = bt
				p.Required = true
				if g.O.FieldComments {
					p.Comment = g.maybeComment(30)
				}
				hd.Expected.Outputs = append(hd.Expected.Outputs, p)
			}
		}
		if h.OutHeaders && g.P(35) {
			hs := []string{"ETag", "X-Next", "Last-Modified", "Expires", "x-total-count"}
			hp := g.Perm(len(hs))
			for k, m := 0, g.many(bigHttp, 1, 2, len(hs)); k < m; k++ {
				p := &sadl.HttpParamSpec{}
				p.Name = g.FieldName(onames)
				p.Header = hs[hp[k]]
				p.Type = g.Pick("String", "String", "Int32")
				if g.O.FieldComments {
					p.Comment = g.maybeComment(30)
				}
				hd.Expected.Outputs = append(hd.Expected.Outputs, p)
			}
			if g.P(30) {
				var mixed []*sadl.HttpParamSpec
				for _, k := range g.Perm(len(hd.Expected.Outputs)) {
					mixed = append(mixed, hd.Expected.Outputs[k])
				}
				hd.Expected.Outputs = mixed
			}
		}
		if h.Exceptions {
			et := h.ExcTypes
			if et == nil {
				et = func(td *sadl.TypeDef) bool { return td.Type == "Struct" }
			}
			usedT, usedS := map[string]bool{}, map[int32]bool{hd.Expected.Status: true}
			for k, m := 0, g.many(bigHttp, 0, 2, 9); k < m; k++ {
				t := g.named(et)
				st := excStatus[g.Intn(len(excStatus))]
				again := h.RepeatExc > 0 && len(hd.Exceptions) > 0 && g.P(h.RepeatExc)
				if again {
					t = hd.Exceptions[g.Intn(len(hd.Exceptions))].Type
				}
				if t == "" || usedT[t] && !again || usedS[st] {
					continue
				}
				if h.DefaultExc && !usedS[500] && !usedS[0] && g.P(15) {
					st = 0
				} else if st == 500 && usedS[0] {
					continue
				}
				usedT[t], usedS[st] = true, true
				x := &sadl.HttpExceptionSpec{Type: t, Status: st}
				if g.O.FieldComments {
					x.Comment = g.maybeComment(30)
				}
				hd.Exceptions = append(hd.Exceptions, x)
			}
		}
		if h.Resource && g.P(30) {
			hd.Resource = noun
		}
		g.Schema.Http = append(g.Schema.Http, hd)
	}
}

func stripParams(p string) string {
	var b strings.Builder
	in := false
	for _, c := range p {
		if c == '{' {
			in = true
			b.WriteString("{}")
		} else if c == '}' {
			in = false
		} else if !in {
			b.WriteRune(c)
		}
	}
	return b.String()
}
