// C10: exporting to OpenAPI and importing the document back keeps the types and actions.
package main

import (
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"

	"verif/gen"
	"verif/mon"
	"verif/oas"
	"verif/ref"
)

func main() {
	mon.Main(mon.Spec{Prop: "C10",
		Rule:        "random models exported, saved as JSON or YAML and imported back: the result is compared node by node with the original after the conversions OpenAPI forces (listed in the harness), values are validated against original and result, and a second round trip must change nothing; non-trivial = distinct model",
		Assumptions: []string{"types with an OpenAPI counterpart: Bool, Int32, Int64, Float32, Float64, Decimal, String, Timestamp, Array, Map with String keys, Struct, Enum, Union of named types, Any", "not kept by OpenAPI: annotations, comments beside references and of enum symbols, input names of bodies, namespace"},
		MinEvents:   map[string]int{"round trip": 500, "type": 1000, "action": 1000, "value accepted": 1000, "value rejected": 1000, "second round trip": 500}},
		func(r *mon.Run) {
			r.Cases("roundtrip", r.Scale(2000, 30000), func(i int, g *mon.Rand) { one(r, g, i) })
		})
}

var kinds = []string{"Bool", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "String", "Timestamp", "UUID", "Array", "Map", "Struct", "Struct", "Struct", "Enum", "Union"}
var fields = []string{"Bool", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Timestamp", "Any", "Array", "Map"}

func trip(r *mon.Run, g *mon.Rand, m *sadl.Model) *sadl.Model {
	doc, err := openapi.NewGenerator(m, sadl.NewData()).ExportToOAS3()
	if err != nil {
		r.Failf("export", "export failed: %v\n%s", err, mon.JSON(m.Schema))
		return nil
	}
	text := sadl.Pretty(doc)
	ext := g.Pick(".json", ".yaml")
	if ext == ".yaml" {
		text = oas.YAML(oas.Norm(doc), "")
	}
	f := filepath.Join(r.Scratch(), "doc"+ext)
	if err := os.WriteFile(f, []byte(text), 0644); err != nil {
		mon.Bug("%v", err)
	}
	m2, err := openapi.Import([]string{f}, sadl.NewData())
	if err != nil {
		r.Failf("import", "the exported document cannot be imported: %v\n%s", err, text)
		return nil
	}
	return m2
}

func one(r *mon.Run, rnd *mon.Rand, i int) {
	g := gen.New(rnd, gen.Opts{Kinds: kinds, FieldKinds: fields, InlineEnum: true, InlineStruct: true, InlineUnion: true, Constraints: true, FieldCons: true, Sizes: true, Recursive: true, NamedItems: true,
		Hostile: true, Comments: true, FieldComments: true, EmptyStruct: true, FloatLimits: true, PlainValues: true, MinTypes: 1, MaxTypes: 9})
	s := g.Types()
	var plain func(ts *sadl.TypeSpec)
	plain = func(ts *sadl.TypeSpec) {
		var vs []*sadl.UnionVariantDef
		seen := map[string]bool{}
		for _, v := range ts.Variants {
			if v.Name = v.Type; !seen[v.Name] {
				seen[v.Name] = true
				vs = append(vs, v)
			}
		}
		ts.Variants = vs
		for _, f := range ts.Fields {
			plain(&f.TypeSpec)
		}
	}
	for _, td := range s.Types {
		plain(&td.TypeSpec)
	}
	g.Http(gen.HttpOpts{Min: 0, Max: 6, Query: true, Headers: true, OutHeaders: true, Exceptions: true, DefaultExc: true, NoContent: true, Resource: true, ParamCons: true, ReqParams: true, ArrayParams: true,
		Methods:    []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"},
		ParamKinds: []string{"String", "Int32", "Int64", "Bool", "Float64", "Decimal", "Timestamp"}, NamedParams: func(td *sadl.TypeDef) bool { return td.Type != "Struct" },
		BodyTypes: func(td *sadl.TypeDef) bool { return true }, BodyKinds: []string{"String", "Any", "Int32"}})
	for _, h := range s.Http {
		if g.P(20) {
			h.Resource = "R"
			h.Annotations = map[string]string{"x_tags": g.Pick("a", "a,b", "x y,z,w")}
		}
		seen := map[string]bool{}
		var ins []*sadl.HttpParamSpec
		for _, in := range h.Inputs { // names must stay distinct
			n := oas.KeptName(in)
			if !seen[n] {
				seen[n] = true
				ins = append(ins, in)
			} else if in.Path || in.Query != "" {
				return
			}
		}
		h.Inputs = ins
	}
	if g.P(30) {
		s.Base = "/api"
	}
	if g.P(30) {
		s.Annotations = map[string]string{"x_server": "https://example.com/x", "x_license_name": "MIT", "x_license_url": "https://x"}
	}
	for _, td := range s.Types {
		if g.P(25) {
			s.Examples = append(s.Examples, &sadl.ExampleDef{Target: td.Name, Example: g.Value(&td.TypeSpec, 0, 1)})
		}
	}
	r.Note(mon.JSON(s))
	m, err := sadl.NewModel(s)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	key := mon.JSON(s)
	r.Observe(key, len(s.Types)+len(s.Http) > 1)
	m2 := trip(r, rnd, m)
	if m2 == nil {
		return
	}
	r.Event("round trip")
	r.EventN("type", len(s.Types))
	r.EventN("action", len(s.Http))
	want := oas.Canon(oas.Keeps(s))
	var diffs []string
	oas.Diff("", want, oas.Canon(&m2.Schema), nil, &diffs)
	if len(diffs) > 0 {
		sort.Strings(diffs)
		r.Failf("differs", "the model differs after export and import:\n%s\nmodel %s", strings.Join(diffs, "\n"), key)
		return
	}
	types := ref.TypesOf(s)
	for _, td := range s.Types {
		for k := 0; k < 4; k++ {
			v := g.Value(&td.TypeSpec, []int{0, 5, 30, 80}[k], 0)
			w := types.Conforms(&td.TypeSpec, v)
			e := m2.Validate("", td.Name, v)
			if (e == nil) != w {
				r.Failf("verdict", "type %s: the original model says conforms=%v, the model after the round trip says %v\nvalue %s\nmodel %s", td.Name, w, e, mon.JSON(v), key)
			}
			if w {
				r.Event("value accepted")
			} else {
				r.Event("value rejected")
			}
		}
	}
	m3 := trip(r, rnd, m2)
	if m3 == nil {
		return
	}
	diffs = nil
	a, b := oas.Canon(&m2.Schema), oas.Canon(&m3.Schema)
	oas.Diff("", a, b, nil, &diffs)
	if len(diffs) > 0 {
		sort.Strings(diffs)
		r.Failf("unstable", "a second export and import changes the model:\n%s\nmodel %s", strings.Join(diffs, "\n"), mon.JSON(m2.Schema))
	}
	r.Event("second round trip")
}
