// Package smi says, independently of the code under test, what Smithy JSON AST a model is.
package smi

import (
	"fmt"
	"strings"

	"github.com/boynton/sadl"
)

type M = map[string]interface{}
type L = []interface{}

// Doc is an AST under construction; Err is the reason why Smithy cannot hold the model.
type Doc struct {
	NS     string
	In     string // suffix of input structures
	Out    string
	Shapes M
	Order  map[string][]string // the members of a shape in order
	Synth  map[string]bool     // shapes for inline definitions: their documentation is free
	Err    error
}

func (d *Doc) fail(format string, args ...interface{}) {
	if d.Err == nil {
		d.Err = fmt.Errorf(format, args...)
	}
}

func (d *Doc) put(name string, shape M) {
	id := d.NS + "#" + name
	if _, ok := d.Shapes[id]; ok {
		d.fail("two shapes %s", id)
	}
	d.Shapes[id] = shape
}

var prelude = map[string]string{"Bool": "Boolean", "Int8": "Byte", "Int16": "Short", "Int32": "Integer", "Int64": "Long", "Float32": "Float", "Float64": "Double",
	"Decimal": "BigDecimal", "Timestamp": "Timestamp", "UUID": "String", "Bytes": "Blob", "String": "String", "Struct": "Document", "Any": "Document"}

var simple = map[string]string{"Bool": "boolean", "Int8": "byte", "Int16": "short", "Int32": "integer", "Int64": "long", "Float32": "float", "Float64": "double",
	"Decimal": "bigDecimal", "Timestamp": "timestamp", "UUID": "string", "Bytes": "blob", "String": "string", "Any": "document"}

const UUIDPattern = "([a-f0-9]{8}(-[a-f0-9]{4}){4}[a-f0-9]{8})"

func up(s string) string {
	r := []rune(s)
	if len(r) == 0 {
		return s
	}
	return strings.ToUpper(string(r[:1])) + string(r[1:])
}

func (d *Doc) ref(name string) string {
	if p, ok := prelude[name]; ok {
		return "smithy.api#" + p
	}
	return d.NS + "#" + name
}

func needsShape(ts *sadl.TypeSpec) bool {
	switch ts.Type {
	case "Array", "Map", "Enum", "Union", "UnitValue":
		return true
	case "Struct":
		return len(ts.Fields) > 0
	case "String":
		return len(ts.Values) > 0
	}
	return false
}

func limits(ts *sadl.TypeSpec, traits M) {
	l := M{}
	if ts.MinSize != nil {
		l["min"] = *ts.MinSize
	}
	if ts.MaxSize != nil {
		l["max"] = *ts.MaxSize
	}
	if len(l) > 0 {
		traits["smithy.api#length"] = l
	}
	r := M{}
	if ts.Min != nil {
		r["min"] = ts.Min
	}
	if ts.Max != nil {
		r["max"] = ts.Max
	}
	if len(r) > 0 {
		traits["smithy.api#range"] = r
	}
	if ts.Pattern != "" {
		traits["smithy.api#pattern"] = ts.Pattern
	}
}

// a member of the structure or union "owner"
func (d *Doc) member(owner, name string, ts *sadl.TypeSpec, comment string, annos map[string]string) M {
	traits := M{}
	target := d.ref(ts.Type)
	if needsShape(ts) {
		inline := up(owner) + up(name)
		d.shape(inline, ts, "", annos)
		d.Synth[d.NS+"#"+inline] = true
		target = d.NS + "#" + inline
	} else {
		limits(ts, traits)
	}
	if comment != "" {
		traits["smithy.api#documentation"] = comment
	}
	return M{"target": target, "traits": traits}
}

func (d *Doc) item(name, def string) string {
	switch name {
	case "":
		name = def
	case "Array", "Map", "Enum", "Union", "UnitValue":
		d.fail("bare %s", name)
	}
	return d.ref(name)
}

func (d *Doc) shape(name string, ts *sadl.TypeSpec, comment string, annos map[string]string) {
	traits := M{}
	shape := M{"traits": traits}
	var order []string
	switch ts.Type {
	case "Array":
		shape["type"] = "list"
		if v, ok := annos["x_unique"]; ok && (v == "" || v == "true") {
			shape["type"] = "set"
		}
		shape["member"] = M{"target": d.item(ts.Items, "Any"), "traits": M{}}
		limits(ts, traits)
	case "Map":
		shape["type"] = "map"
		shape["key"] = M{"target": d.item(ts.Keys, "String"), "traits": M{}}
		shape["value"] = M{"target": d.item(ts.Items, "Any"), "traits": M{}}
		limits(ts, traits)
	case "Struct":
		shape["type"] = "structure"
		ms := M{}
		for _, f := range ts.Fields {
			m := d.member(name, f.Name, &f.TypeSpec, f.Comment, f.Annotations)
			if f.Required {
				m["traits"].(M)["smithy.api#required"] = true
			}
			ms[f.Name] = m
			order = append(order, f.Name)
		}
		shape["members"] = ms
	case "Union":
		shape["type"] = "union"
		ms := M{}
		for _, v := range ts.Variants {
			ms[v.Name] = d.member(name, v.Name, &v.TypeSpec, v.Comment, v.Annotations)
			order = append(order, v.Name)
		}
		shape["members"] = ms
	case "Enum":
		shape["type"] = "enum"
		ms := M{}
		for _, e := range ts.Elements {
			t := M{}
			if v, ok := e.Annotations["x_enumValue"]; ok {
				t["smithy.api#enumValue"] = v
			}
			if e.Comment != "" {
				t["smithy.api#documentation"] = e.Comment
			}
			ms[e.Symbol] = M{"target": "smithy.api#Unit", "traits": t}
			order = append(order, e.Symbol)
		}
		shape["members"] = ms
	case "UUID":
		shape["type"] = "string"
		traits["smithy.api#pattern"] = UUIDPattern
	case "UnitValue":
		d.fail("UnitValue")
		return
	default:
		shape["type"] = simple[ts.Type]
		limits(ts, traits)
		if len(ts.Values) > 0 {
			var vs L
			for _, v := range ts.Values {
				vs = append(vs, M{"value": v})
			}
			traits["smithy.api#enum"] = vs
		}
	}
	if comment != "" {
		traits["smithy.api#documentation"] = comment
	}
	if v, ok := annos["x_tags"]; ok {
		traits["smithy.api#tags"] = split(v)
	}
	if _, ok := annos["x_sensitive"]; ok {
		traits["smithy.api#sensitive"] = true
	}
	if v, ok := annos["x_deprecated"]; ok {
		dep := M{}
		add := func(k, v string) {
			if v != "" {
				dep[k] = v
			}
		}
		if v == "" || v == "true" {
			add("since", annos["x_deprecated_since"])
			add("message", annos["x_deprecated_message"])
		} else if p := strings.SplitN(v, "|", 2); len(p) == 2 {
			dep["since"], dep["message"] = p[0], p[1]
		} else {
			dep["message"] = v
		}
		traits["smithy.api#deprecated"] = dep
	}
	d.Order[d.NS+"#"+name] = order
	d.put(name, shape)
}

func split(s string) L {
	var l L
	for _, x := range strings.Split(s, ",") {
		l = append(l, x)
	}
	return l
}

// Expect gives the AST of the model (or Err, if Smithy cannot hold it).
func Expect(s *sadl.Schema, ns string, in, out string) (*Doc, M) {
	d := &Doc{NS: ns, In: in, Out: out, Shapes: M{}, Order: map[string][]string{}, Synth: map[string]bool{}}
	for _, td := range s.Types {
		d.shape(td.Name, &td.TypeSpec, td.Comment, td.Annotations)
	}
	var ops L
	status := map[string]int32{}
	errorShape := func(name string) M {
		e, _ := d.Shapes[ns+"#"+name].(M)
		if e == nil || e["type"] != "structure" {
			d.fail("exception %s is no structure", name)
			return nil
		}
		return e
	}
	for _, h := range s.Http {
		name := up(h.Name)
		path := s.Base + h.Path
		if n := strings.Index(path, "?"); n >= 0 {
			path = path[:n]
		}
		http := M{"method": h.Method, "uri": path, "code": 200}
		if h.Expected != nil {
			http["code"] = h.Expected.Status
		}
		traits := M{"smithy.api#http": http}
		op := M{"type": "operation", "traits": traits}
		if h.Comment != "" {
			traits["smithy.api#documentation"] = h.Comment
		}
		switch h.Method {
		case "GET":
			traits["smithy.api#readonly"] = true
		case "PUT", "DELETE":
			traits["smithy.api#idempotent"] = true
		}
		if v, ok := h.Annotations["x_tags"]; ok {
			traits["smithy.api#tags"] = split(v)
		}
		if v, ok := h.Annotations["x_paginated"]; ok {
			p := M{}
			for _, kv := range strings.Split(v, ",") {
				if n := strings.Index(kv, "="); n >= 0 && n+1 < len(kv) {
					p[kv[:n]] = kv[n+1:]
				}
			}
			traits["smithy.api#paginated"] = p
		}
		params := func(suffix, trait string, ps []*sadl.HttpParamSpec) M {
			ms := M{}
			var order []string
			for _, p := range ps {
				m := d.member(name+suffix, p.Name, &p.TypeSpec, p.Comment, p.Annotations)
				t := m["traits"].(M)
				if p.Required || p.Path && trait == "input" {
					t["smithy.api#required"] = true
				}
				switch {
				case p.Path && trait == "input":
					t["smithy.api#httpLabel"] = true
				case p.Query != "" && trait == "input":
					t["smithy.api#httpQuery"] = p.Query
				case p.Header != "":
					t["smithy.api#httpHeader"] = p.Header
				default:
					t["smithy.api#httpPayload"] = true
				}
				ms[p.Name] = m
				order = append(order, p.Name)
			}
			d.Order[ns+"#"+name+suffix] = order
			d.put(name+suffix, M{"type": "structure", "traits": M{"smithy.api#" + trait: true}, "members": ms})
			return M{"target": ns + "#" + name + suffix}
		}
		if len(h.Inputs) > 0 {
			op["input"] = params(in, "input", h.Inputs)
		}
		if h.Expected != nil && len(h.Expected.Outputs) > 0 {
			op["output"] = params(out, "output", h.Expected.Outputs)
		}
		var errs L
		for _, x := range h.Exceptions {
			errs = append(errs, M{"target": ns + "#" + x.Type})
			e := errorShape(x.Type)
			if e == nil {
				continue
			}
			if st, ok := status[x.Type]; ok && st != x.Status {
				d.fail("several statuses for %s", x.Type)
			}
			status[x.Type] = x.Status
			t := e["traits"].(M)
			t["smithy.api#error"] = "client"
			if x.Status == 0 || x.Status >= 500 {
				t["smithy.api#error"] = "server"
			} else if x.Status < 400 { // Smithy has no word for it, the exporter chose these
				t["smithy.api#error"] = map[int32]string{1: "informational", 2: "success", 3: "redirect"}[x.Status/100]
			}
			if x.Status != 0 {
				t["smithy.api#httpError"] = x.Status
			}
			if ms := e["members"].(M); len(ms) == 1 {
				for _, m := range ms {
					if to, ok := d.Shapes[m.(M)["target"].(string)].(M); ok && to["type"] == "structure" {
						m.(M)["traits"].(M)["smithy.api#httpPayload"] = true
					}
				}
			}
		}
		if errs != nil {
			op["errors"] = errs
		}
		if exs := examples(s, h, ns); len(exs) > 0 {
			traits["smithy.api#examples"] = exs
		}
		d.put(name, op)
		ops = append(ops, M{"target": ns + "#" + name})
	}
	for _, o := range s.Operations {
		name := up(o.Name)
		op := M{"type": "operation", "traits": M{}}
		if o.Comment != "" {
			op["traits"].(M)["smithy.api#documentation"] = o.Comment
		}
		if len(o.Inputs) > 0 {
			ms := M{}
			var order []string
			for _, p := range o.Inputs {
				m := d.member(name+in, p.Name, &p.TypeSpec, p.Comment, p.Annotations)
				if p.Required {
					m["traits"].(M)["smithy.api#required"] = true
				}
				ms[p.Name] = m
				order = append(order, p.Name)
			}
			d.Order[ns+"#"+name+in] = order
			d.put(name+in, M{"type": "structure", "traits": M{}, "members": ms})
			op["input"] = M{"target": ns + "#" + name + in}
		}
		if len(o.Outputs) > 0 {
			ms := M{}
			var order []string
			for _, p := range o.Outputs {
				ms[p.Name] = d.member(name+out, p.Name, &p.TypeSpec, p.Comment, p.Annotations)
				order = append(order, p.Name)
			}
			d.Order[ns+"#"+name+out] = order
			d.put(name+out, M{"type": "structure", "traits": M{}, "members": ms})
			op["output"] = M{"target": ns + "#" + name + out}
		}
		var errs L
		for _, x := range o.Exceptions {
			errs = append(errs, M{"target": ns + "#" + x})
			if e := errorShape(x); e != nil && e["traits"].(M)["smithy.api#error"] == nil {
				e["traits"].(M)["smithy.api#error"] = "client"
			}
		}
		if errs != nil {
			op["errors"] = errs
		}
		d.put(name, op)
		ops = append(ops, M{"target": ns + "#" + name})
	}
	if len(ops) > 0 {
		svc := M{"type": "service", "version": s.Version, "operations": ops, "traits": M{}}
		if s.Version == "" {
			svc["version"] = "0.0"
		}
		if s.Comment != "" {
			svc["traits"].(M)["smithy.api#documentation"] = s.Comment
		}
		n := up(s.Name)
		if _, ok := d.Shapes[ns+"#"+n]; ok {
			n = s.Name
		}
		d.put(n, svc)
	}
	doc := M{"smithy": "2", "shapes": d.Shapes, "metadata": M{}}
	if s.Base != "" {
		doc["metadata"].(M)["base"] = s.Base
	}
	return d, doc
}

func examples(s *sadl.Schema, h *sadl.HttpDef, ns string) (out L) {
	for _, e := range s.Examples {
		if e.Target != up(h.Name)+"Request" {
			continue
		}
		x := M{"title": e.Name, "input": e.Example}
		if e.Comment != "" {
			x["documentation"] = e.Comment
		}
		for _, o := range s.Examples {
			if o.Name != e.Name {
				continue
			}
			if o.Target == up(h.Name)+"Response" {
				x["output"] = o.Example
			}
			for _, exc := range h.Exceptions {
				if o.Target == exc.Type {
					x["error"] = M{"shapeId": ns + "#" + exc.Type, "content": o.Example}
				}
			}
		}
		out = append(out, x)
	}
	return out
}
