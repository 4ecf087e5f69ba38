// C08: the OpenAPI export describes exactly the types and actions of the model.
package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"

	"verif/gen"
	"verif/mon"
	"verif/oas"
)

func main() {
	mon.Main(mon.Spec{Prop: "C08",
		Rule:        "random models (types, constraints, comments, http actions of all methods, examples, tags, base path, servers, license) exported; the document is compared node by node with an independently computed one, every $ref must resolve, the model must be unchanged, the printed document must be the returned one; models with a type, method or path that OpenAPI cannot hold must be refused; non-trivial = distinct model",
		Assumptions: []string{"every action has an expected response and at most one exception per status", "numeric limits fit a float64"},
		MinEvents:   map[string]int{"document": 500, "schema": 2000, "operation": 1000, "ref resolved": 2000, "example": 500, "refused": 200}},
		func(r *mon.Run) {
			r.Cases("export", r.Scale(2500, 40000), func(i int, g *mon.Rand) { one(r, g, i) })
		})
}

var kinds = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Timestamp", "UUID", "Array", "Map", "Struct", "Struct", "Struct", "Enum", "Union"}
var fields = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "UnitValue", "Any", "Array", "Map"}

func one(r *mon.Run, rnd *mon.Rand, i int) {
	g := gen.New(rnd, gen.Opts{Kinds: kinds, FieldKinds: fields, InlineEnum: true, InlineStruct: true, InlineUnion: true, Constraints: true, FieldCons: true, Sizes: true, Recursive: true, NamedItems: true, MapKeyNamed: true,
		Hostile: true, Comments: true, FieldComments: true, EnumComments: true, Annotations: true, EmptyStruct: true, MinTypes: 0, MaxTypes: 9})
	s := g.Types()
	g.Http(gen.HttpOpts{Min: 0, Max: 6, Query: true, Headers: true, OutHeaders: true, Exceptions: true, DefaultExc: true, NoContent: true, Resource: true, ParamCons: true, ReqParams: true, ArrayParams: true,
		Methods:    []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"},
		ParamKinds: []string{"String", "Int8", "Int32", "Int64", "Bool", "Float64", "Decimal", "UUID", "Timestamp"}, NamedParams: func(td *sadl.TypeDef) bool { return td.Type != "Struct" },
		BodyTypes: func(td *sadl.TypeDef) bool { return true }, BodyKinds: []string{"String", "Any", "Int32"}})
	for _, h := range s.Http {
		for _, x := range h.Exceptions {
			if g.P(10) {
				x.Type = g.Pick("String", "Any", "Int32", "Timestamp", "UUID", "Struct", "")
			}
		}
	}
	if len(s.Types) > 0 {
		for _, h := range s.Http {
			if g.P(20) {
				if h.Annotations == nil {
					h.Annotations = map[string]string{}
				}
				h.Annotations["x_tags"] = g.Pick("a", "a,b", "x y,z,w")
			}
		}
	}
	if g.P(30) {
		s.Base = g.Pick("/api", "/v1/x")
	}
	if g.P(20) {
		s.Version = ""
	}
	if g.P(30) {
		s.Annotations = map[string]string{}
		if g.Bool() {
			s.Annotations["x_server"] = "https://example.com/x"
		}
		if g.Bool() {
			s.Annotations["x_license_name"] = "MIT"
		}
		if g.Bool() {
			s.Annotations["x_license_url"] = "https://example.com/mit"
		}
		if g.Bool() {
			s.Annotations["x_other"] = "1"
		}
	}
	examples(r, g, s)
	if g.P(5) {
		td := g.Def("Array")
		td.Items = td.Name
		s.Types = append(s.Types, td)
	}
	r.Note(mon.JSON(s))
	m, err := sadl.NewModel(s)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	before := mon.JSON(m.Schema)
	conf := sadl.NewData()
	doc, err := openapi.NewGenerator(m, conf).ExportToOAS3()
	r.Observe(before, len(s.Types)+len(s.Http) > 1)
	if err != nil {
		r.Failf("refused", "export refused the model: %v\n%s", err, before)
		return
	}
	text := sadl.Pretty(doc)
	var got interface{}
	if err := json.Unmarshal([]byte(text), &got); err != nil {
		r.Failf("invalid", "the document is not JSON: %v\n%s", err, text)
		return
	}
	if after := mon.JSON(m.Schema); after != before {
		r.Failf("mutated", "exporting changed the model\n%s\n%s", before, after)
	}
	want := oas.Norm(oas.New(s).Doc())
	var diffs []string
	oas.Diff("", want, got, map[string]bool{"required": true}, &diffs)
	r.Event("document")
	r.EventN("schema", len(s.Types))
	r.EventN("operation", len(s.Http))
	r.EventN("example", len(s.Examples))
	if len(diffs) > 0 {
		sort.Strings(diffs)
		r.Failf("differs", "the document differs from what the model says:\n%s\nmodel %s", strings.Join(diffs, "\n"), before)
	}
	refs := map[string]bool{}
	oas.Refs(got, refs)
	comps, _ := got.(map[string]interface{})["components"].(map[string]interface{})["schemas"].(map[string]interface{})
	for ref := range refs {
		n := strings.TrimPrefix(ref, "#/components/schemas/")
		if _, ok := comps[n]; !ok || n == ref {
			r.Failf("dangling", "reference %s resolves to nothing\n%s", ref, before)
		}
		r.Event("ref resolved")
	}
	if i%10 == 0 {
		var err error
		out := mon.Capture(func() { err = openapi.Export(m, conf) })
		var printed interface{}
		if err != nil || json.Unmarshal([]byte(out), &printed) != nil || mon.JSON(printed) != mon.JSON(got) {
			r.Failf("printed", "Export printed (error %v)\n%s\nwhile the document is\n%s", err, out, text)
		}
	}
	refuse(r, g, s)
}

func examples(r *mon.Run, g *gen.G, s *sadl.Schema) {
	for _, td := range s.Types {
		if g.P(25) && td.Items != td.Name {
			s.Examples = append(s.Examples, &sadl.ExampleDef{Target: td.Name, Name: g.Pick("", "ex1"), Example: g.Value(&td.TypeSpec, 0, 1)})
		}
	}
	for _, h := range s.Http {
		for k, n := 0, g.Up(1, 2, 6); k < n; k++ {
			if g.P(30) {
				v := map[string]interface{}{}
				for _, in := range h.Inputs {
					if g.P(80) {
						v[in.Name] = g.Value(&in.TypeSpec, 0, 2)
					}
				}
				if g.P(5) {
					v["other"] = "x"
				}
				s.Examples = append(s.Examples, &sadl.ExampleDef{Target: sadl.Capitalize(h.Name) + "Request", Name: g.Pick("", "one", "two", "three", "four"), Example: v})
			}
			if g.P(30) {
				v := map[string]interface{}{}
				for _, out := range h.Expected.Outputs {
					if g.P(80) {
						v[out.Name] = g.Value(&out.TypeSpec, 0, 2)
					}
				}
				s.Examples = append(s.Examples, &sadl.ExampleDef{Target: sadl.Capitalize(h.Name) + "Response", Name: g.Pick("", "one", "two", "three", "four"), Example: v})
			}
		}
	}
	if g.P(5) {
		s.Examples = append(s.Examples, &sadl.ExampleDef{Target: g.Pick("NoSuchRequest", "NoSuchResponse", "Request", "Response", "Nothing", "A.b"), Example: g.PickS2("x", map[string]interface{}{"a": 1.0})})
	}
}

// refuse: what OpenAPI cannot express must be an error, never silently dropped.
func refuse(r *mon.Run, g *gen.G, s *sadl.Schema) {
	c := *s
	what := ""
	switch k := g.Intn(5); {
	case k == 0:
		td := &sadl.TypeDef{Name: "Odd_" + g.Pick("a", "b"), TypeSpec: sadl.TypeSpec{Type: g.Pick("Bytes", "UnitValue", "Any")}}
		at := g.Intn(len(s.Types) + 1)
		c.Types = append(append(append([]*sadl.TypeDef{}, s.Types[:at]...), td), s.Types[at:]...)
		what = "a type definition " + td.Type
	case k == 1 && len(s.Http) > 0:
		h := *s.Http[g.Intn(len(s.Http))]
		h.Name += "Again"
		if i := strings.IndexByte(h.Path, '?'); i >= 0 && g.Bool() {
			h.Path = h.Path[:i]
		}
		c.Http = append(append([]*sadl.HttpDef{}, s.Http...), &h)
		what = "two actions for " + h.Method + " " + h.Path
	case k == 2:
		bad := sadl.TypeSpec{Type: g.Pick("Array", "Map"), Keys: "String", Items: g.Pick("NoSuchType", "nothing")}
		what = bad.Type + " of undefined items"
		for n := g.Intn(3); n > 0; n-- {
			if g.Bool() {
				v := &sadl.UnionVariantDef{Name: "u", TypeSpec: bad}
				bad = sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{v}}
			} else {
				bad = sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{{Name: "f", TypeSpec: bad}}}
			}
		}
		h := &sadl.HttpDef{Name: "zz", Method: "PUT", Path: "/zz", Expected: &sadl.HttpExpectedSpec{Status: 200}}
		p := &sadl.HttpParamSpec{StructFieldDef: sadl.StructFieldDef{Name: "p", TypeSpec: bad}}
		switch g.Intn(6) {
		case 0:
			p.Query = "p"
			h.Inputs = append(h.Inputs, p)
		case 1:
			p.Header = "X-P"
			h.Inputs = append(h.Inputs, p)
		case 2:
			h.Inputs = append(h.Inputs, p)
		case 3:
			p.Header = "X-P"
			h.Expected.Outputs = append(h.Expected.Outputs, p)
		case 4:
			h.Expected.Outputs = append(h.Expected.Outputs, p)
		default:
			h = nil
			c.Types = append(append([]*sadl.TypeDef{}, s.Types...), &sadl.TypeDef{Name: "Odd_u", TypeSpec: bad})
		}
		if h != nil {
			c.Http = append(append([]*sadl.HttpDef{}, s.Http...), h)
		}
	case k == 4:
		h := &sadl.HttpDef{Name: "zz", Method: "GET", Path: "/zz", Expected: &sadl.HttpExpectedSpec{Status: int32(g.Pick0(200, 201, 204))}}
		st := int32(g.Pick0(0, 400, 404, 500, int(h.Expected.Status)))
		h.Exceptions = append(h.Exceptions, &sadl.HttpExceptionSpec{Type: "Struct", Status: st}, &sadl.HttpExceptionSpec{Type: "String", Status: int32(g.Pick0(int(st), 403))})
		if st != h.Expected.Status {
			h.Exceptions[1].Status = st
		}
		c.Http = append(append([]*sadl.HttpDef{}, s.Http...), h)
		what = fmt.Sprintf("two responses with status %d", st)
	default:
		h := &sadl.HttpDef{Name: "zz", Method: g.Pick("TRACE", "FOO", "get", ""), Path: "/zz", Expected: &sadl.HttpExpectedSpec{Status: 200}}
		c.Http = append(append([]*sadl.HttpDef{}, s.Http...), h)
		what = "method " + h.Method
	}
	m, err := sadl.NewModel(&c)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	r.Note(what + mon.JSON(&c))
	doc, err := openapi.NewGenerator(m, sadl.NewData()).ExportToOAS3()
	if err == nil {
		r.Failf("not-refused", "%s was exported without an error\n%s", what, sadl.Pretty(doc))
		return
	}
	r.Event("refused")
}
