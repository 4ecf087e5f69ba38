package src

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/boynton/sadl"

	"verif/gen"
	"verif/mon"
	"verif/ref"
)

// Opts is the part of the language that the source monitors generate.
var Opts = gen.Opts{Constraints: true, FieldCons: true, Sizes: true, InlineEnum: true, InlineStruct: true, InlineUnion: true, Recursive: true, NamedItems: true, MapKeyNamed: true, MapKeyText: true,
	EmptyStruct: true, Comments: true, FieldComments: true, EnumComments: true, Annotations: true, Reference: true, LowerNames: true, PlainValues: true,
	FieldKinds: []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any", "Array", "Map", "UnitValue"}}

var texts = []string{"", "x", "a b", "100%", "don't", "// not a comment", "/* nor this */", "{}", "caf\u00e9", "\u4e16\u754c", "a;b", "tab\there", "line\nbreak", "quote\"d", "back\\slash"}

func annos(r *mon.Rand, pct int) map[string]string {
	if !r.P(pct) {
		return nil
	}
	m := map[string]string{}
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		m["x_"+r.Pick("a", "tag", "owner", "since", "Deprecated", "b2")] = r.Pick("", "yes", "1.0", "some text", "a-b", "a,b", "// no", "(p)")
	}
	return m
}

// Schema generates a schema that uses all of the language.
func Schema(r *mon.Rand) (*gen.G, *sadl.Schema) {
	g := gen.New(r, Opts)
	s := g.Types()
	if r.P(30) {
		s.Base = r.Pick("/v1", "/api/v2", "/")
	}
	if r.P(20) {
		s.Namespace = ""
	}
	if r.P(20) {
		s.Version = ""
	}
	s.Annotations = annos(r, 30)
	for _, td := range s.Types {
		if td.Type == "Union" {
			for _, v := range td.Variants {
				if v.Name != v.Type {
					v.Annotations = annos(r, 15)
					if r.P(20) {
						v.Comment = g.Comment()
					}
					if r.P(15) {
						v.Type, v.Items = "Array", g.Pick("String", "Int32", "Any")
					}
				}
			}
		}
	}
	for _, td := range s.Types {
		for _, f := range td.Fields {
			defaults(g, f)
		}
	}
	g.Http(gen.HttpOpts{Methods: []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}, Headers: true, OutHeaders: true, Query: true, Exceptions: true, DefaultExc: true, NoContent: true,
		ParamKinds: []string{"String", "Int32", "Int64", "Bool", "UUID", "Timestamp", "Float64", "Decimal"}, NamedParams: func(td *sadl.TypeDef) bool { return td.Type == "String" || td.Type == "Enum" },
		ArrayParams: true, ParamCons: true, ReqParams: true, Resource: true, Partial: true, BodyTypes: func(td *sadl.TypeDef) bool { return true }, Min: 0, Max: 4})
	derived := map[string]bool{}
	for _, h := range s.Http {
		derived[strings.ToLower(h.Name)] = true
	}
	for _, h := range s.Http {
		if r.P(25) {
			res := Resource(h.Path)
			name := strings.ToLower(h.Method) + strings.ToUpper(res[:1]) + res[1:]
			if !derived[strings.ToLower(name)] {
				derived[strings.ToLower(name)] = true
				h.Name, h.Resource = name, res
			}
		}
		if r.P(20) { // a resource that the path does not tell, a name that it almost tells
			res := h.Resource
			if res == "" || r.P(50) {
				res = r.Pick("things", "Stock", "x1", Resource(h.Path))
			}
			name := strings.ToLower(h.Method) + strings.ToUpper(res[:1]) + res[1:]
			if r.P(40) {
				name = strings.ToLower(h.Method) + strings.ToLower(res)
			}
			if !derived[strings.ToLower(name)] {
				derived[strings.ToLower(name)] = true
				h.Name, h.Resource = name, res
			}
		}
		for _, p := range h.Inputs {
			p.Annotations = annos(r, 10)
			if p.Query != "" || p.Header != "" {
				defaults(g, &p.StructFieldDef)
			}
		}
		if r.P(10) {
			h.Expected = nil
			for _, p := range h.Inputs {
				_ = p
			}
		}
		if e := h.Expected; e != nil {
			e.Annotations = annos(r, 15)
			for _, p := range e.Outputs {
				if p.Header == "" && r.P(30) {
					p.Name, p.Comment = "entity", ""
				} else {
					p.Annotations = annos(r, 10)
				}
			}
		}
		for _, e := range h.Exceptions {
			e.Annotations = annos(r, 15)
			if r.P(10) {
				e.Status = 0
			}
		}
	}
	if r.P(50) {
		seen := map[string]bool{}
		for i, n := 0, r.Range(1, 3); i < n; i++ {
			op := &sadl.OperationDef{Name: r.Pick("Fetch", "store", "Compute", "ping") + fmt.Sprint(i), Annotations: annos(r, 20)}
			if r.P(40) {
				op.Comment = g.Comment()
			}
			if seen[op.Name] {
				continue
			}
			seen[op.Name] = true
			used := map[string]bool{}
			for k, m := 0, r.Intn(3); k < m; k++ {
				in := &sadl.OperationInput{}
				in.Name, in.Type, in.Required, in.Annotations = g.FieldName(used), typeName(g), r.Bool(), annos(r, 10)
				if r.P(30) {
					in.Comment = g.Comment()
				}
				op.Inputs = append(op.Inputs, in)
			}
			used = map[string]bool{}
			for k, m := 0, r.Intn(3); k < m; k++ {
				out := &sadl.OperationOutput{}
				out.Name, out.Type, out.Annotations = g.FieldName(used), typeName(g), annos(r, 10)
				if r.P(30) {
					out.Comment = g.Comment()
				}
				op.Outputs = append(op.Outputs, out)
			}
			for _, td := range s.Types {
				if td.Type == "Struct" && r.P(20) {
					op.Exceptions = append(op.Exceptions, td.Name)
				}
			}
			s.Operations = append(s.Operations, op)
		}
	}
	examples(g, s)
	return g, s
}

func typeName(g *gen.G) string {
	if len(g.Schema.Types) > 0 && g.P(60) {
		return g.Schema.Types[g.Intn(len(g.Schema.Types))].Name
	}
	return g.Pick("String", "Int32", "Bool", "UUID", "Timestamp", "Decimal")
}

// value gives a conforming value with no null in it (a null is the absence of a value).
func value(g *gen.G, ts *sadl.TypeSpec) interface{} {
	for i := 0; i < 20; i++ {
		raw := g.Value(ts, 0, 0)
		v := norm(raw)
		if v != nil && !hasNil(v) && ref.TypesOf(g.Schema).Conforms(ts, raw) {
			if s, ok := v.(string); ok && ts.Type == "String" && ts.Pattern == "" && ts.Values == nil && ts.MinSize == nil && ts.MaxSize == nil && s != "" && g.P(30) {
				return g.PickS(texts)
			}
			return v
		}
	}
	return nil
}

func norm(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		mon.Bug("src: %v", err)
	}
	x, err := decode(b)
	if err != nil {
		mon.Bug("src: %v", err)
	}
	return x
}

func decode(b []byte) (interface{}, error) {
	var x interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	err := d.Decode(&x)
	return x, err
}

func hasNil(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case []interface{}:
		for _, e := range x {
			if hasNil(e) {
				return true
			}
		}
	case map[string]interface{}:
		for _, e := range x {
			if hasNil(e) {
				return true
			}
		}
	}
	return false
}

func defaults(g *gen.G, f *sadl.StructFieldDef) {
	if f.Required || !g.P(20) {
		return
	}
	if v := value(g, &f.TypeSpec); v != nil {
		f.Default = v
	}
}

func examples(g *gen.G, s *sadl.Schema) {
	add := func(target string, v interface{}) {
		if v == nil || hasNil(v) {
			return
		}
		e := &sadl.ExampleDef{Target: target, Example: v, Annotations: annos(g.Rand, 10)}
		if g.P(60) {
			e.Name = g.Pick("one", "sample", "ex_2", "Third") + fmt.Sprint(len(s.Examples))
			if g.P(20) {
				e.Name = g.Pick("an example ", "\u00e9", "1.", "x-", "(a, b) ") + e.Name
			}
		}
		if g.P(40) {
			e.Comment = g.Comment()
		}
		s.Examples = append(s.Examples, e)
	}
	for _, td := range s.Types {
		if g.P(25) {
			add(td.Name, value(g, &td.TypeSpec))
		}
		if len(td.Fields) > 0 && g.P(15) {
			f := td.Fields[g.Intn(len(td.Fields))]
			path := td.Name + "." + f.Name
			for len(f.Fields) > 0 && g.P(70) {
				f = f.Fields[g.Intn(len(f.Fields))]
				path += "." + f.Name
			}
			add(path, value(g, &f.TypeSpec))
		}
	}
	object := func(ps []*sadl.HttpParamSpec) interface{} {
		m := map[string]interface{}{}
		for _, p := range ps {
			if p.Required || g.Bool() {
				v := value(g, &p.TypeSpec)
				if v == nil && p.Required {
					return nil
				}
				if v != nil {
					m[p.Name] = v
				}
			}
		}
		return m
	}
	for _, h := range s.Http {
		if g.P(25) {
			add(sadl.Capitalize(h.Name)+"Request", object(h.Inputs))
		}
		if h.Expected != nil && g.P(25) {
			add(sadl.Capitalize(h.Name)+"Response", object(h.Expected.Outputs))
		}
		one := func(target string, ps []*sadl.HttpParamSpec) {
			if len(ps) > 0 && g.P(12) {
				p := ps[g.Intn(len(ps))]
				add(sadl.Capitalize(h.Name)+target+"."+p.Name, value(g, &p.TypeSpec))
			}
		}
		one("Request", h.Inputs)
		if h.Expected != nil {
			one("Response", h.Expected.Outputs)
		}
	}
}

// Canon gives the JSON of a schema with comments compared by words and numbers by value.
func Canon(s *sadl.Schema) string {
	b, err := json.Marshal(s)
	if err != nil {
		return "error: " + err.Error()
	}
	x, err := decode(b)
	if err != nil {
		return "error: " + err.Error()
	}
	m := x.(map[string]interface{})
	delete(m, "sadl")
	var out strings.Builder
	canon(&out, x, "", "")
	return out.String()
}

func canon(b *strings.Builder, v interface{}, indent, key string) {
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteString("{\n")
		for _, k := range ks {
			fmt.Fprintf(b, "%s %q: ", indent, k)
			canon(b, x[k], indent+" ", k)
			b.WriteString("\n")
		}
		b.WriteString(indent + "}")
	case []interface{}:
		b.WriteString("[\n")
		for _, e := range x {
			b.WriteString(indent + " ")
			canon(b, e, indent+" ", "")
			b.WriteString("\n")
		}
		b.WriteString(indent + "]")
	case json.Number:
		if q, ok := new(big.Rat).SetString(x.String()); ok {
			b.WriteString(q.RatString())
		} else {
			b.WriteString(x.String())
		}
	case string:
		if key == "comment" {
			x = strings.Join(strings.Fields(x), " ")
		}
		fmt.Fprintf(b, "%q", x)
	default:
		fmt.Fprintf(b, "%v", x)
	}
}

// Diff shows where two texts differ.
func Diff(a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	i := 0
	for i < len(al) && i < len(bl) && al[i] == bl[i] {
		i++
	}
	lo := i - 12
	if lo < 0 {
		lo = 0
	}
	cut := func(l []string) string {
		hi := i + 6
		if hi > len(l) {
			hi = len(l)
		}
		if lo > hi {
			return ""
		}
		return strings.Join(l[lo:hi], "\n")
	}
	return "expected:\n" + cut(al) + "\ngot:\n" + cut(bl)
}
