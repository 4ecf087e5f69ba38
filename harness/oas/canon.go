package oas

import (
	"fmt"
	"sort"

	"github.com/boynton/sadl"
)

// Canon gives a schema as generic JSON in which the order of types, fields, actions, parameters and responses does not matter.
func Canon(s *sadl.Schema) M {
	out := M{"name": s.Name, "comment": s.Comment, "version": s.Version, "base": s.Base, "namespace": s.Namespace, "annotations": annos(s.Annotations)}
	types := M{}
	for _, td := range s.Types {
		t := CanonSpec(&td.TypeSpec)
		t["comment"], t["annotations"] = td.Comment, annos(td.Annotations)
		types[uniq(types, td.Name)] = t
	}
	out["types"] = types
	http := M{}
	for _, h := range s.Http {
		http[uniq(http, h.Name)] = canonHttp(h)
	}
	out["http"] = http
	var exs []interface{}
	for _, e := range s.Examples {
		exs = append(exs, M{"target": e.Target, "name": e.Name, "value": Norm(e.Example), "comment": e.Comment})
	}
	out["examples"] = sorted(interface{}(append([]interface{}{}, exs...)))
	return Norm(out).(M)
}

func uniq(m M, n string) string {
	for {
		if _, ok := m[n]; !ok {
			return n
		}
		n += "+dup"
	}
}

func annos(a map[string]string) M {
	m := M{}
	for k, v := range a {
		m[k] = v
	}
	return m
}

func CanonSpec(ts *sadl.TypeSpec) M {
	m := M{"type": ts.Type}
	put(m, "pattern", ts.Pattern)
	vals := append([]string{}, ts.Values...)
	sort.Strings(vals)
	put(m, "values", strs(vals))
	if ts.MinSize != nil {
		m["minSize"] = *ts.MinSize
	}
	if ts.MaxSize != nil {
		m["maxSize"] = *ts.MaxSize
	}
	if ts.Min != nil {
		m["min"] = num(ts.Min)
	}
	if ts.Max != nil {
		m["max"] = num(ts.Max)
	}
	put(m, "items", ts.Items)
	put(m, "keys", ts.Keys)
	put(m, "unit", ts.Unit)
	put(m, "value", ts.Value)
	put(m, "reference", ts.Reference)
	if ts.Type == "Struct" {
		fs := M{}
		for _, f := range ts.Fields {
			fs[uniq(fs, f.Name)] = canonField(f)
		}
		m["fields"] = fs
	}
	var els []interface{}
	for _, e := range ts.Elements {
		els = append(els, M{"symbol": e.Symbol, "comment": e.Comment})
	}
	put(m, "elements", els)
	var vs []interface{}
	for _, v := range ts.Variants {
		x := CanonSpec(&v.TypeSpec)
		x["name"] = v.Name
		vs = append(vs, x)
	}
	put(m, "variants", vs)
	return m
}

func canonField(f *sadl.StructFieldDef) M {
	m := CanonSpec(&f.TypeSpec)
	m["required"] = f.Required
	m["comment"] = f.Comment
	m["annotations"] = annos(f.Annotations)
	if f.Default != nil {
		m["default"] = Norm(f.Default)
	}
	return m
}

func canonParams(ps []*sadl.HttpParamSpec) M {
	out := M{}
	for _, p := range ps {
		m := canonField(&p.StructFieldDef)
		m["header"], m["query"], m["path"] = p.Header, p.Query, p.Path
		out[uniq(out, p.Name)] = m
	}
	return out
}

func canonHttp(h *sadl.HttpDef) M {
	m := M{"method": h.Method, "path": h.Path, "comment": h.Comment, "resource": h.Resource, "annotations": annos(h.Annotations), "inputs": canonParams(h.Inputs)}
	if h.Expected != nil {
		m["expected"] = M{"status": h.Expected.Status, "comment": h.Expected.Comment, "outputs": canonParams(h.Expected.Outputs)}
	}
	xs := M{}
	for _, x := range h.Exceptions {
		k := fmt.Sprintf("%d %s", x.Status, x.Type)
		xs[uniq(xs, k)] = M{"comment": x.Comment}
	}
	m["exceptions"] = xs
	return m
}

// Exact tells which limits of the schema are not the number they are written as.
func Exact(s *sadl.Schema) (bad []string) {
	var spec func(where string, ts *sadl.TypeSpec)
	one := func(where string, d *sadl.Decimal) {
		if d != nil {
			if p, err := sadl.ParseDecimal(d.String()); err != nil || p.Cmp(&d.Float) != 0 {
				bad = append(bad, where+" limit "+d.String())
			}
		}
	}
	spec = func(where string, ts *sadl.TypeSpec) {
		one(where, ts.Min)
		one(where, ts.Max)
		for _, f := range ts.Fields {
			spec(where+"."+f.Name, &f.TypeSpec)
		}
	}
	for _, td := range s.Types {
		spec(td.Name, &td.TypeSpec)
	}
	for _, h := range s.Http {
		for _, p := range h.Inputs {
			spec(h.Name+"."+p.Name, &p.TypeSpec)
		}
		if h.Expected != nil {
			for _, p := range h.Expected.Outputs {
				spec(h.Name+"."+p.Name, &p.TypeSpec)
			}
		}
	}
	return bad
}
