// C12: the GraphQL export describes exactly the types of the model.
package main

import (
	"fmt"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/graphql"

	"verif/gen"
	"verif/gql"
	"verif/mon"
)

func main() {
	mon.Main(mon.Spec{Prop: "C12",
		Rule:        "random models of objects, enums, unions, lists (named, nested, inline) and scalars exported under random custom-scalar mappings; the text is parsed by an independent GraphQL parser and compared definition by definition with an independently computed list, every name must resolve, the printed text must be the returned one, a second export must be identical and the model unchanged; a model with one thing GraphQL cannot hold must be refused; non-trivial = distinct model with at least one field",
		Assumptions: []string{"the graphql-go parser reads GraphQL correctly"},
		MinEvents:   map[string]int{"document": 1000, "object": 2000, "field": 5000, "list": 1000, "nested list": 100, "union": 200, "enum": 500, "custom scalar": 300, "refused": 1000, "deep list": 500}},
		func(r *mon.Run) {
			r.Cases("export", r.Scale(10000, 150000), func(i int, g *mon.Rand) { one(r, g, i) })
		})
}

var kinds = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Timestamp", "UUID", "Array", "Array", "Struct", "Struct", "Struct", "Struct", "Enum", "Enum", "Union", "Union"}
var fields = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Timestamp", "UUID", "Array", "Array"}

func one(r *mon.Run, rnd *mon.Rand, i int) {
	g := gen.New(rnd, gen.Opts{Kinds: kinds, FieldKinds: fields, Constraints: true, FieldCons: true, Sizes: true, Recursive: true, NamedItems: true,
		Hostile: true, Comments: true, FieldComments: true, EnumComments: true, Annotations: true, EmptyStruct: true, MinTypes: 1, MaxTypes: 14})
	s := g.Types()
	var keep []*sadl.TypeDef
	isStruct := map[string]bool{}
	for _, td := range s.Types {
		isStruct[td.Name] = td.Type == "Struct"
	}

	for _, td := range s.Types {
		if td.Type == "Union" {
			var vs []*sadl.UnionVariantDef
			seen := map[string]bool{}
			for _, v := range td.Variants {
				if isStruct[v.Type] && !seen[v.Type] {
					seen[v.Type] = true
					vs = append(vs, v)
				}
			}
			td.Variants = vs
			if len(vs) == 0 {
				td.Type, td.Variants = "String", nil // keep the name defined
			}
		}
		for _, f := range td.Fields {
			if g.P(6) {
				f.Comment = g.Comment() + "\n" + g.Pick("second: String", "type Foo {", "}", "more text", "# x\n\nthird")
			}
		}
		keep = append(keep, td)
	}

	if g.P(20) { // lists of lists of lists
		el := g.Pick("String", "Int32", "Bool", s.Types[0].Name)
		if s.Types[0].Type == "Array" {
			el = "String"
		}
		td := &sadl.TypeDef{Name: "DeepHolder", TypeSpec: sadl.TypeSpec{Type: "Struct"}}
		n := g.Range(2, 9)
		for i := 0; i < n; i++ {
			keep = append(keep, &sadl.TypeDef{Name: fmt.Sprintf("Deep%d", i), TypeSpec: sadl.TypeSpec{Type: "Array", Items: el}})
			el = fmt.Sprintf("Deep%d", i)
			if i == n-1 || g.P(30) {
				td.Fields = append(td.Fields, &sadl.StructFieldDef{Name: fmt.Sprintf("f%d", i), Required: g.Bool(), TypeSpec: sadl.TypeSpec{Type: el}})
			}
		}
		td.Fields = append(td.Fields, &sadl.StructFieldDef{Name: "inline", TypeSpec: sadl.TypeSpec{Type: "Array", Items: el}})
		keep = append(keep, td)
		r.Event("deep list")
	}

	// definitions may come in any order
	if g.Bool() {
		p := g.Perm(len(keep))
		var k2 []*sadl.TypeDef
		for _, j := range p {
			k2 = append(k2, keep[j])
		}
		keep = k2
	}
	s.Types = keep
	custom := map[string]string{}
	conf := sadl.NewData()
	if g.P(60) {
		cs := map[string]interface{}{}
		for _, t := range []string{"UUID", "Timestamp", "Int64", "Decimal"} {
			if g.Bool() {
				custom[t] = g.Pick(t, "My"+t, "Scalar_x")
				cs[t] = custom[t]
			}
		}
		if g.P(20) {
			cs["String"] = "Str"
			cs["Int32"] = "I32"
		}
		conf.Put("custom-scalars", cs)
	}
	r.Note(mon.JSON(s) + mon.JSON(custom))
	m, err := sadl.NewModel(s)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	before := mon.JSON(m.Schema)
	nf := 0
	for _, td := range s.Types {
		nf += len(td.Fields)
	}
	r.Observe(before+mon.JSON(custom), nf > 0)
	text, err := graphql.FromSadl(m, conf)
	if err != nil {
		r.Failf("refused", "export refused the model: %v\n%s", err, before)
		return
	}
	if after := mon.JSON(m.Schema); after != before {
		r.Failf("mutated", "exporting changed the model\n%s\n%s", before, after)
	}
	if i%3 == 0 {
		t2, err := graphql.FromSadl(m, conf)
		if err != nil || t2 != text {
			r.Failf("unstable", "a second export differs: %v\n%s\n%s", err, text, t2)
		}
	}
	if i%10 == 0 {
		var err error
		out := mon.Capture(func() { err = graphql.Export(m, conf) })
		if err != nil || out != text {
			r.Failf("printed", "Export printed (error %v)\n%s\nwhile the text is\n%s", err, out, text)
		}
	}
	r.Event("document")
	if diff := gql.Compare(r, s, custom, text); diff != "" {
		r.Failf("differs", "%s\ntext\n%s\nmodel %s", diff, text, before)
	}
	refuse(r, g, s, conf)
}

// refuse: what GraphQL cannot express must be an error, never silently dropped, left undefined or a crash.
func refuse(r *mon.Run, g *gen.G, s *sadl.Schema, conf *sadl.Data) {
	var c sadl.Schema = *s
	what := ""
	add := func(tds ...*sadl.TypeDef) {
		at := g.Intn(len(s.Types) + 1)
		c.Types = append(append(append([]*sadl.TypeDef{}, s.Types[:at]...), tds...), s.Types[at:]...)
	}
	field := func(ts sadl.TypeSpec) *sadl.TypeDef {
		td := &sadl.TypeDef{Name: "OddStruct", TypeSpec: sadl.TypeSpec{Type: "Struct"}}
		n := g.Intn(3)
		for k := 0; k < 3; k++ {
			f := &sadl.StructFieldDef{Name: fmt.Sprintf("f%d", k), TypeSpec: sadl.TypeSpec{Type: "String"}, Required: g.Bool()}
			if k == n {
				f.TypeSpec = ts
			}
			td.Fields = append(td.Fields, f)
		}
		return td
	}
	bad := []string{"Bytes", "Any", "Map", "UnitValue"}
	spec := func(k string) sadl.TypeSpec {
		ts := sadl.TypeSpec{Type: k}
		switch k {
		case "Map":
			ts.Keys, ts.Items = "String", "Int32"
		case "UnitValue":
			ts.Value, ts.Unit = "Decimal", "String"
		case "Enum":
			ts.Elements = []*sadl.EnumElementDef{{Symbol: "A"}}
		case "Union":
			ts.Variants = []*sadl.UnionVariantDef{{Name: "a", TypeSpec: sadl.TypeSpec{Type: "String"}}}
		case "Struct":
			ts.Fields = []*sadl.StructFieldDef{{Name: "a", TypeSpec: sadl.TypeSpec{Type: "String"}}}
		}
		return ts
	}
	switch g.Intn(6) {
	case 0:
		k := g.PickS(bad)
		add(&sadl.TypeDef{Name: "OddType", TypeSpec: spec(k)})
		what = "a type definition " + k
	case 1:
		k := g.PickS(append(bad, "Enum", "Struct", "Union"))
		add(field(spec(k)))
		what = "a field of inline type " + k
	case 2:
		k := g.Pick("Bytes", "Any")
		add(field(sadl.TypeSpec{Type: "Array", Items: k}))
		what = "a list of " + k
	case 3:
		add(&sadl.TypeDef{Name: "OddList", TypeSpec: sadl.TypeSpec{Type: "Array", Items: g.Pick("Bytes", "Any")}}, field(sadl.TypeSpec{Type: g.Pick("OddList", "OddList")}))
		what = "a named list of Bytes or Any"
	case 4:
		if g.Bool() {
			add(&sadl.TypeDef{Name: "OddList", TypeSpec: sadl.TypeSpec{Type: "Array", Items: "OddList"}}, field(sadl.TypeSpec{Type: "OddList"}))
		} else {
			add(&sadl.TypeDef{Name: "OddList", TypeSpec: sadl.TypeSpec{Type: "Array", Items: "OddList2"}}, &sadl.TypeDef{Name: "OddList2", TypeSpec: sadl.TypeSpec{Type: "Array", Items: "OddList"}}, field(sadl.TypeSpec{Type: "Array", Items: "OddList"}))
		}
		what = "a list that contains itself"
	case 5:
		td := &sadl.TypeDef{Name: "OddUnion", TypeSpec: sadl.TypeSpec{Type: "Union"}}
		td2 := field(sadl.TypeSpec{Type: "String"})
		td3 := &sadl.TypeDef{Name: "OddScalar", TypeSpec: sadl.TypeSpec{Type: g.Pick("String", "Int32", "Array"), Items: "Int32"}}
		if g.P(30) {
			td3.TypeSpec = sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "OddStruct", TypeSpec: sadl.TypeSpec{Type: "OddStruct"}}}}
		}
		vs := []string{"OddStruct", g.Pick("String", "Int32", "OddScalar")}
		if g.Bool() {
			vs[0], vs[1] = vs[1], vs[0]
		}
		for _, v := range vs {
			td.Variants = append(td.Variants, &sadl.UnionVariantDef{Name: v, TypeSpec: sadl.TypeSpec{Type: v}})
		}
		add(td, td2, td3)
		what = "a union of a type that is not an object"
	}
	m, err := sadl.NewModel(&c)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	r.Note(what + mon.JSON(&c))
	text, err := graphql.FromSadl(m, conf)
	if err == nil {
		r.Failf("not-refused", "%s was exported without an error\n%s", what, text)
		return
	}
	var err2 error
	if out := mon.Capture(func() { err2 = graphql.Export(m, conf) }); err2 == nil || out != "" {
		r.Failf("not-refused", "%s: Export printed %q and returned %v", what, out, err2)
	}
	r.Event("refused")
}
