// Package oas is an independent specification of the OpenAPI documents a SADL model stands for.
package oas

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/boynton/sadl"

	"verif/mon"
)

type M = map[string]interface{}

// Norm turns any value into generic JSON.
func Norm(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		mon.Bug("norm: %v", err)
	}
	var x interface{}
	if err := json.Unmarshal(b, &x); err != nil {
		mon.Bug("norm: %v", err)
	}
	return x
}

func put(m M, k string, v interface{}) {
	switch t := v.(type) {
	case string:
		if t == "" {
			return
		}
	case []interface{}:
		if len(t) == 0 {
			return
		}
	case M:
		if len(t) == 0 {
			return
		}
	case nil:
		return
	}
	m[k] = v
}

var numeric = map[string][3]string{"Int8": {"integer", "int32", "Int8"}, "Int16": {"integer", "int32", "Int16"}, "Int32": {"integer", "int32", ""},
	"Int64": {"integer", "int64", ""}, "Float32": {"number", "float", ""}, "Float64": {"number", "double", ""}, "Decimal": {"number", "", "Decimal"}}

func num(d *sadl.Decimal) interface{} {
	f, err := strconv.ParseFloat(d.String(), 64)
	if err != nil {
		mon.Bug("decimal %s: %v", d, err)
	}
	return f
}

func ref(name string) M { return M{"$ref": "#/components/schemas/" + name} }

type Exp struct {
	S     *sadl.Schema
	types map[string]*sadl.TypeDef
}

func New(s *sadl.Schema) *Exp {
	e := &Exp{S: s, types: map[string]*sadl.TypeDef{}}
	for _, td := range s.Types {
		e.types[td.Name] = td
	}
	return e
}

func (e *Exp) item(n string) M { return e.Spec(&sadl.TypeSpec{Type: n}) }

func (e *Exp) limits(m M, ts *sadl.TypeSpec, lo, hi string) {
	if ts.MinSize != nil && *ts.MinSize > 0 {
		m[lo] = float64(*ts.MinSize)
	}
	if ts.MaxSize != nil {
		m[hi] = float64(*ts.MaxSize)
	}
}

func strs(v []string) []interface{} {
	var out []interface{}
	for _, s := range v {
		out = append(out, s)
	}
	return out
}

// Spec is the schema for an inline type spec (a field, parameter, item).
func (e *Exp) Spec(ts *sadl.TypeSpec) M {
	m := M{}
	if n, ok := numeric[ts.Type]; ok {
		put(m, "type", n[0])
		put(m, "format", n[1])
		put(m, "description", n[2])
		if ts.Min != nil {
			m["minimum"] = num(ts.Min)
		}
		if ts.Max != nil {
			m["maximum"] = num(ts.Max)
		}
		return m
	}
	switch ts.Type {
	case "Bool":
		m["type"] = "boolean"
	case "Bytes":
		m["type"], m["format"] = "string", "byte"
	case "String":
		m["type"] = "string"
		put(m, "pattern", ts.Pattern)
		e.limits(m, ts, "minLength", "maxLength")
		put(m, "enum", strs(ts.Values))
	case "Timestamp":
		m["type"], m["format"] = "string", "date-time"
	case "UnitValue", "UUID":
		m["type"], m["description"] = "string", ts.Type
	case "Enum":
		m["type"] = "string"
		put(m, "enum", symbols(ts))
	case "Any":
	case "Array":
		m["type"] = "array"
		m["items"] = e.item(ts.Items)
		e.limits(m, ts, "minItems", "maxItems")
	case "Map":
		m["type"] = "object"
		m["additionalProperties"] = e.item(ts.Items)
		e.limits(m, ts, "minProperties", "maxProperties")
	case "Struct":
		m = e.structure(ts.Fields)
	case "Union":
		var of []interface{}
		for _, v := range ts.Variants {
			of = append(of, e.Spec(&v.TypeSpec))
		}
		put(m, "oneOf", of)
	default:
		return ref(ts.Type)
	}
	return m
}

func symbols(ts *sadl.TypeSpec) []interface{} {
	var out []interface{}
	for _, el := range ts.Elements {
		out = append(out, el.Symbol)
	}
	return out
}

func (e *Exp) structure(fields []*sadl.StructFieldDef) M {
	m := M{"type": "object"}
	props := M{}
	var req []interface{}
	for _, f := range fields {
		s := e.Spec(&f.TypeSpec)
		if _, isRef := s["$ref"]; !isRef && f.Comment != "" {
			s["description"] = f.Comment
		}
		props[f.Name] = s
		if f.Required {
			req = append(req, f.Name)
		}
	}
	put(m, "properties", props)
	put(m, "required", req)
	return m
}

// Supported tells if a typedef of this base type has an OpenAPI form.
func Supported(base string) bool { return base != "Bytes" && base != "UnitValue" && base != "Any" }

func (e *Exp) def(td *sadl.TypeDef) M {
	m := e.Spec(&td.TypeSpec)
	if numeric[td.Type][0] == "" || td.Comment != "" {
		delete(m, "description")
	}
	put(m, "description", td.Comment)
	if td.Type == "UUID" {
		m["format"] = "uuid"
	}
	return m
}

func or(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// Doc is the whole document (with sorted "required" lists).
func (e *Exp) Doc() M {
	s := e.S
	info := M{"title": s.Name, "version": or(s.Version, "dev")}
	put(info, "description", s.Comment)
	lic := M{}
	put(lic, "name", s.Annotations["x_license_name"])
	put(lic, "url", s.Annotations["x_license_url"])
	put(info, "license", lic)
	servers := []interface{}{M{"url": "http://localhost:8000"}}
	if u, ok := s.Annotations["x_server"]; ok {
		sv := M{}
		put(sv, "url", u)
		servers = append(servers, sv)
	}
	schemas := M{}
	for _, td := range s.Types {
		schemas[td.Name] = e.def(td)
	}
	paths := M{}
	comps := M{}
	put(comps, "schemas", schemas)
	ops := map[string]M{}
	for _, h := range s.Http {
		p := s.Base + h.Path
		if i := strings.IndexByte(p, '?'); i >= 0 {
			p = p[:i]
		}
		pi, _ := paths[p].(M)
		if pi == nil {
			pi = M{}
			paths[p] = pi
		}
		op := e.op(h)
		ops[h.Name] = op
		pi[strings.ToLower(h.Method)] = op
	}
	for _, ex := range s.Examples {
		e.example(ex, schemas, ops)
	}
	return M{"openapi": "3.0.0", "info": info, "servers": servers, "components": comps, "paths": paths}
}

func (e *Exp) op(h *sadl.HttpDef) M {
	op := M{"operationId": h.Name}
	put(op, "summary", h.Comment)
	var tags []interface{}
	if h.Resource != "" {
		tags = append(tags, h.Resource)
	}
	if t, ok := h.Annotations["x_tags"]; ok {
		tags = append(tags, strs(strings.Split(t, ","))...)
	}
	put(op, "tags", tags)
	var params []interface{}
	for _, in := range h.Inputs {
		where, name := "body", ""
		req := in.Required
		switch {
		case in.Path:
			where, name, req = "path", in.Name, true
		case in.Query != "":
			where, name = "query", in.Query
		case in.Header != "":
			where, name = "header", in.Header
		}
		if where == "body" {
			b := M{"required": true, "content": M{"application/json": M{"schema": e.Spec(&in.TypeSpec)}}}
			put(b, "description", in.Comment)
			op["requestBody"] = b
			continue
		}
		p := M{"in": where, "name": name, "schema": e.Spec(&in.TypeSpec)}
		put(p, "description", in.Comment)
		if req {
			p["required"] = true
		}
		params = append(params, p)
	}
	put(op, "parameters", params)
	resps := M{}
	r := M{"description": or(h.Expected.Comment, "Expected response")}
	hdrs := M{}
	for _, out := range h.Expected.Outputs {
		if out.Header != "" {
			hd := M{"schema": e.Spec(&out.TypeSpec)}
			put(hd, "description", out.Comment)
			hdrs[out.Header] = hd
		} else {
			r["content"] = M{"application/json": M{"schema": e.Spec(&out.TypeSpec)}}
		}
	}
	put(r, "headers", hdrs)
	resps[fmt.Sprint(h.Expected.Status)] = r
	for _, x := range h.Exceptions {
		key := "default"
		if x.Status != 0 {
			key = fmt.Sprint(x.Status)
		}
		xr := M{"description": or(x.Comment, "Exceptional response")}
		if x.Type != "" {
			xr["content"] = M{"application/json": M{"schema": e.item(x.Type)}}
		}
		resps[key] = xr
	}
	op["responses"] = resps
	return op
}

func (e *Exp) example(ex *sadl.ExampleDef, schemas M, ops map[string]M) {
	v := Norm(ex.Example)
	if sc, ok := schemas[ex.Target].(M); ok {
		sc["example"] = v
		return
	}
	name, kind := ex.Target, ""
	for _, k := range []string{"Request", "Response"} {
		if strings.HasSuffix(ex.Target, k) {
			name, kind = sadl.Uncapitalize(strings.TrimSuffix(ex.Target, k)), k
		}
	}
	vals, ok := v.(map[string]interface{})
	op := ops[name]
	if kind == "" || !ok || op == nil {
		return
	}
	var h *sadl.HttpDef
	for _, x := range e.S.Http {
		if x.Name == name {
			h = x
		}
	}
	add := func(at M, v interface{}) {
		if ex.Name == "" {
			at["example"] = v
			return
		}
		exs, _ := at["examples"].(M)
		if exs == nil {
			exs = M{}
			at["examples"] = exs
		}
		exs[ex.Name] = M{"value": v}
	}
	if kind == "Response" {
		for _, out := range h.Expected.Outputs {
			if v, ok := vals[out.Name]; ok && out.Header == "" {
				add(op["responses"].(M)[fmt.Sprint(h.Expected.Status)].(M)["content"].(M)["application/json"].(M), v)
			}
		}
		return
	}
	for _, in := range h.Inputs {
		v, ok := vals[in.Name]
		if !ok {
			continue
		}
		where, n := "", ""
		switch {
		case in.Path:
			where, n = "path", in.Name
		case in.Query != "":
			where, n = "query", in.Query
		case in.Header != "":
			where, n = "header", in.Header
		default:
			add(op["requestBody"].(M)["content"].(M)["application/json"].(M), v)
			continue
		}
		for _, p := range op["parameters"].([]interface{}) {
			if p.(M)["in"] == where && p.(M)["name"] == n {
				add(p.(M), v)
			}
		}
	}
}

// Refs collects every $ref of a document.
func Refs(v interface{}, out map[string]bool) {
	switch t := v.(type) {
	case map[string]interface{}:
		for k, x := range t {
			if s, ok := x.(string); ok && k == "$ref" {
				out[s] = true
			} else if k != "example" && k != "examples" {
				Refs(x, out)
			}
		}
	case []interface{}:
		for _, x := range t {
			Refs(x, out)
		}
	}
}

// Diff lists where two generic JSON documents differ; lists under the given keys are compared as sets.
func Diff(path string, want, got interface{}, sets map[string]bool, out *[]string) {
	if len(*out) > 8 {
		return
	}
	switch w := want.(type) {
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			*out = append(*out, fmt.Sprintf("%s: want %s, got %s", path, mon.JSON(want), mon.JSON(got)))
			return
		}
		for k, x := range w {
			y, ok := g[k]
			if !ok {
				*out = append(*out, fmt.Sprintf("%s.%s: missing, want %.200s", path, k, mon.JSON(x)))
				continue
			}
			if sets[k] {
				x, y = sorted(x), sorted(y)
			}
			Diff(path+"."+k, x, y, sets, out)
		}
		for k, y := range g {
			if _, ok := w[k]; !ok {
				*out = append(*out, fmt.Sprintf("%s.%s: unexpected %.200s", path, k, mon.JSON(y)))
			}
		}
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			*out = append(*out, fmt.Sprintf("%s: want %s, got %s", path, mon.JSON(want), mon.JSON(got)))
			return
		}
		for i := range w {
			Diff(fmt.Sprintf("%s[%d]", path, i), w[i], g[i], sets, out)
		}
	default:
		if mon.JSON(want) != mon.JSON(got) {
			*out = append(*out, fmt.Sprintf("%s: want %s, got %s", path, mon.JSON(want), mon.JSON(got)))
		}
	}
}

func sorted(v interface{}) interface{} {
	a, ok := v.([]interface{})
	if !ok {
		return v
	}
	b := append([]interface{}{}, a...)
	sort.Slice(b, func(i, j int) bool { return mon.JSON(b[i]) < mon.JSON(b[j]) })
	return b
}
