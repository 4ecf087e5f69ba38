package oas

import (
	"strings"

	"github.com/boynton/sadl"
)

// ---------------------------------------------------------------- what OpenAPI keeps

func keptSymbol(s string) bool {
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return s != ""
}

func keptSpec(ts sadl.TypeSpec, param bool) sadl.TypeSpec {
	if ts.MinSize != nil && *ts.MinSize == 0 {
		ts.MinSize = nil
	}
	if len(ts.Values) > 0 && !param {
		all := true
		for _, v := range ts.Values {
			all = all && keptSymbol(v)
		}
		if all {
			n := sadl.TypeSpec{Type: "Enum"}
			for _, v := range ts.Values {
				n.Elements = append(n.Elements, &sadl.EnumElementDef{Symbol: v})
			}
			return n
		}
	}
	if param && len(ts.Values) > 0 { // symbols as parameter values lose sizes
		all := true
		for _, v := range ts.Values {
			all = all && keptSymbol(v)
		}
		if all {
			return sadl.TypeSpec{Type: "String", Values: ts.Values}
		}
	}
	var fs []*sadl.StructFieldDef
	for _, f := range ts.Fields {
		n := &sadl.StructFieldDef{Name: f.Name, Required: f.Required, TypeSpec: keptSpec(f.TypeSpec, false)}
		n.Comment = keptComment(&f.TypeSpec, f.Comment)
		fs = append(fs, n)
	}
	ts.Fields = fs
	var vs []*sadl.UnionVariantDef
	for _, v := range ts.Variants {
		n := &sadl.UnionVariantDef{Name: v.Type}
		n.Type = v.Type
		vs = append(vs, n)
	}
	ts.Variants = vs
	return ts
}

var keptBase = map[string]bool{"Bool": true, "Int32": true, "Int64": true, "Float32": true, "Float64": true, "Decimal": true, "String": true, "Timestamp": true, "Any": true, "Array": true, "Map": true, "Struct": true, "Enum": true, "Union": true}

func keptComment(ts *sadl.TypeSpec, c string) string {
	if !keptBase[ts.Type] {
		return ""
	}
	if c == "" && ts.Type == "Decimal" {
		return "Decimal"
	}
	return c
}

// KeptName is the name an importer gives a parameter.
func KeptName(p *sadl.HttpParamSpec) string {
	switch {
	case p.Path:
		return p.Name
	case p.Query != "":
		return Ident(p.Query)
	case p.Header != "":
		return Ident(p.Header)
	}
	return "body"
}

// Keeps gives what is left of a schema after a trip through OpenAPI.
func Keeps(s *sadl.Schema) *sadl.Schema {
	c := &sadl.Schema{Name: s.Name, Comment: s.Comment, Version: s.Version, Annotations: map[string]string{"x_openapi_version": "3.0.0", "x_server": "http://localhost:8000"}, Examples: s.Examples}
	for k, v := range s.Annotations {
		c.Annotations[k] = v
	}
	for _, td := range s.Types {
		n := &sadl.TypeDef{Name: td.Name, Comment: td.Comment, TypeSpec: keptSpec(td.TypeSpec, false)}
		if td.Type == "Decimal" && td.Comment == "" {
			n.Comment = "Decimal"
		}
		c.Types = append(c.Types, n)
	}
	for _, h := range s.Http {
		n := &sadl.HttpDef{Name: h.Name, Resource: h.Resource, Method: h.Method, Comment: h.Comment, Annotations: h.Annotations}
		path := h.Path
		q := ""
		if i := strings.IndexByte(path, '?'); i >= 0 {
			path = path[:i]
		}
		for _, in := range h.Inputs {
			p := &sadl.HttpParamSpec{Path: in.Path, Query: in.Query, Header: in.Header}
			p.Name = KeptName(in)
			p.Comment = in.Comment
			p.Required = in.Required || p.Name == "body"
			p.TypeSpec = keptSpec(in.TypeSpec, p.Name != "body")
			if in.Query != "" {
				if q != "" {
					q += "&"
				}
				q += in.Query + "={" + p.Name + "}"
			}
			n.Inputs = append(n.Inputs, p)
		}
		n.Path = s.Base + path
		if q != "" {
			n.Path += "?" + q
		}
		x := &sadl.HttpExpectedSpec{Status: h.Expected.Status, Comment: h.Expected.Comment}
		if x.Comment == "" {
			x.Comment = "Expected response"
		}
		for _, out := range h.Expected.Outputs {
			p := &sadl.HttpParamSpec{Header: out.Header}
			p.Name = "body"
			if out.Header != "" {
				p.Name = Ident(strings.TrimPrefix(strings.TrimPrefix(out.Header, "X-"), "x-"))
				p.Comment = out.Comment
			}
			p.TypeSpec = keptSpec(out.TypeSpec, false)
			x.Outputs = append(x.Outputs, p)
		}
		n.Expected = x
		for _, e := range h.Exceptions {
			y := &sadl.HttpExceptionSpec{Type: e.Type, Status: e.Status, Comment: e.Comment}
			if y.Comment == "" {
				y.Comment = "Exceptional response"
			}
			n.Exceptions = append(n.Exceptions, y)
		}
		c.Http = append(c.Http, n)
	}
	return c
}
