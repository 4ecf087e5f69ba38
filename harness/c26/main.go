// C26: the Smithy export describes exactly the types, actions and operations of the model.
package main

import (
	"fmt"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/smithy"

	"verif/gen"
	"verif/mon"
	"verif/smi"
)

func main() {
	mon.Main(mon.Spec{Prop: "C26",
		Rule:        "random models (types of all kinds with constraints, comments and inline definitions, http actions, operations, exceptions, examples, tags, deprecation, pagination, base path) exported; the printed AST is compared node by node with an independently computed one, members in order, every target must resolve, a second export must print the same, the model must be unchanged; models that Smithy cannot hold must be refused; non-trivial = distinct model",
		Assumptions: []string{"github.com/boynton/smithy is replaced by a stand-in (shim/smithy): the JSON AST and an opaque text form", "exceptions have 4xx or 5xx statuses", "examples have names"},
		MinEvents:   map[string]int{"document": 1000, "shape": 5000, "action": 1000, "operation": 500, "ref resolved": 5000, "example": 300, "refused": 100, "idl": 100}},
		func(r *mon.Run) {
			r.Cases("export", r.Scale(3000, 60000), func(i int, g *mon.Rand) { one(r, g, i) })
		})
}

var kinds = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "String", "Timestamp", "UUID", "Any", "Array", "Map", "Struct", "Struct", "Struct", "Enum", "Union"}
var fields = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "String", "Timestamp", "UUID", "Any", "Array", "Map", "Struct"}

func model(rnd *mon.Rand) (*gen.G, *sadl.Schema) {
	g := gen.New(rnd, gen.Opts{Kinds: kinds, FieldKinds: fields, InlineEnum: true, InlineStruct: true, InlineUnion: true, Constraints: true, FieldCons: true, Sizes: true, Recursive: true, NamedItems: true, MapKeyNamed: true,
		Hostile: true, Comments: true, FieldComments: true, EnumComments: true, EmptyStruct: true, LowerNames: true, Quotes: true, MinTypes: 0, MaxTypes: 9})
	s := g.Types()
	g.Http(gen.HttpOpts{Min: 0, Max: 5, Query: true, Headers: true, OutHeaders: true, Exceptions: true, DefaultExc: true, NoContent: true, Resource: true, ParamCons: true, ReqParams: true, ArrayParams: true,
		Methods:    []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"},
		ParamKinds: []string{"String", "Int8", "Int32", "Int64", "Bool", "Float64", "Decimal", "UUID", "Timestamp"}, NamedParams: func(td *sadl.TypeDef) bool { return td.Type != "Struct" },
		BodyTypes: func(td *sadl.TypeDef) bool { return true }, BodyKinds: []string{"String", "Any", "Int32", "Struct"}})
	annotate(g, s)
	operations(g, s)
	if g.P(30) {
		s.Base = g.Pick("/api", "/v1/x")
	}
	if g.P(20) {
		s.Version = ""
	}
	if g.P(20) {
		s.Namespace = ""
	}
	if g.P(5) && len(s.Http) > 0 { // the service and an action with the same name
		s.Name = s.Http[0].Name
	}
	if g.P(3) && len(s.Http) > 0 {
		h := s.Http[g.Intn(len(s.Http))]
		h.Name = g.Pick("écrire", "été") + h.Name
	}
	for _, h := range s.Http {
		if g.P(3) {
			h.Expected = nil
		}
	}
	if !g.P(4) { // one status per exception
		st := map[string]int32{}
		for _, h := range s.Http {
			for _, x := range h.Exceptions {
				if v, ok := st[x.Type]; ok {
					x.Status = v
				}
				st[x.Type] = x.Status
			}
		}
	}
	examples(g, s)
	return g, s
}

func annotate(g *gen.G, s *sadl.Schema) {
	var fs func(list []*sadl.StructFieldDef)
	fs = func(list []*sadl.StructFieldDef) {
		for _, f := range list {
			if f.Type == "Array" && g.P(20) {
				f.Annotations = map[string]string{"x_unique": g.Pick("", "true", "false")}
			}
			if f.Type == "Array" && g.P(5) {
				f.Items = ""
			}
			if g.P(8) {
				if f.Annotations == nil {
					f.Annotations = map[string]string{}
				}
				f.Annotations["x_"+g.Pick("a", "owner", "b2")] = g.Pick("", "yes")
			}
			fs(f.Fields)
			variants(g, f.Variants)
		}
	}
	for _, td := range s.Types {
		fs(td.Fields)
		variants(g, td.Variants)
		a := map[string]string{}
		if td.Type == "Array" && g.P(40) {
			a["x_unique"] = g.Pick("", "true", "false", "no")
		}
		if (td.Type == "Array" || td.Type == "Map") && g.P(5) {
			td.Items = ""
		}
		if td.Type == "Map" && g.P(5) {
			td.Keys = ""
		}
		if g.P(12) {
			a["x_tags"] = g.Pick("a", "a,b", "x y,z,w", "")
		}
		if g.P(8) {
			a["x_sensitive"] = g.Pick("", "true")
		}
		if g.P(12) {
			a["x_deprecated"] = g.Pick("", "true", "use another", "1.0|use another", "2|a|b", "false")
			if g.P(40) {
				a["x_deprecated_since"] = g.Pick("1.2", "2020")
			}
			if g.P(40) {
				a["x_deprecated_message"] = "old one"
			}
		}
		if g.P(10) {
			a["x_other"] = g.Pick("", "yes")
		}
		if len(a) > 0 {
			td.Annotations = a
		}
		for _, e := range td.Elements {
			if g.P(15) {
				e.Annotations = map[string]string{"x_enumValue": g.Pick("a b", "x", "1", "ü")}
			}
		}
	}
	for _, h := range s.Http {
		a := map[string]string{}
		if g.P(15) {
			a["x_tags"] = g.Pick("a", "a,b", "x y,z,w")
		}
		if g.P(15) {
			a["x_paginated"] = g.Pick("inputToken=skip,outputToken=next,pageSize=limit,items=list", "inputToken=skip,outputToken=next", "items=a.b,pageSize=", "pageSize=n,junk", "items=a=b")
		}
		if g.P(15) {
			a["x_other"] = "1"
		}
		if len(a) > 0 {
			h.Annotations = a
		}
	}
}

func variants(g *gen.G, list []*sadl.UnionVariantDef) {
	for _, v := range list {
		if g.P(20) {
			v.Comment = g.Comment()
		}
		if v.Name != v.Type && g.P(15) {
			v.Type, v.Items = "Array", g.Pick("String", "Int32", "")
		}
		if g.P(20) {
			g.Constrain(&v.TypeSpec)
		}
	}
}

func typeName(g *gen.G) string {
	if len(g.Schema.Types) > 0 && g.P(60) {
		return g.Schema.Types[g.Intn(len(g.Schema.Types))].Name
	}
	return g.Pick("String", "Int32", "Bool", "UUID", "Timestamp", "Decimal", "Any", "Bytes", "Struct")
}

func operations(g *gen.G, s *sadl.Schema) {
	for i, n := 0, g.Intn(4)-1; i < n; i++ {
		op := &sadl.OperationDef{Name: g.Pick("Fetch", "store", "Compute", "ping") + fmt.Sprint(i)}
		if g.P(40) {
			op.Comment = g.Comment()
		}
		used := map[string]bool{}
		for k, m := 0, g.Intn(3); k < m; k++ {
			in := &sadl.OperationInput{}
			in.Name, in.Type, in.Required = g.FieldName(used), typeName(g), g.Bool()
			spec(g, &in.TypeSpec)
			if g.P(30) {
				in.Comment = g.Comment()
			}
			op.Inputs = append(op.Inputs, in)
		}
		used = map[string]bool{}
		for k, m := 0, g.Intn(3); k < m; k++ {
			out := &sadl.OperationOutput{}
			out.Name, out.Type = g.FieldName(used), typeName(g)
			spec(g, &out.TypeSpec)
			if g.P(30) {
				out.Comment = g.Comment()
			}
			op.Outputs = append(op.Outputs, out)
		}
		for _, td := range s.Types {
			if td.Type == "Struct" && g.P(20) {
				op.Exceptions = append(op.Exceptions, td.Name)
			}
		}
		s.Operations = append(s.Operations, op)
	}
}

func spec(g *gen.G, ts *sadl.TypeSpec) {
	if g.P(15) {
		ts.Type, ts.Items = "Array", typeName(g)
	}
	if g.P(30) {
		g.Constrain(ts)
	}
}

func examples(g *gen.G, s *sadl.Schema) {
	value := func(ps []*sadl.HttpParamSpec) interface{} {
		v := map[string]interface{}{}
		for _, p := range ps {
			if g.P(80) {
				v[p.Name] = g.Value(&p.TypeSpec, 0, 2)
			}
		}
		return v
	}
	for _, h := range s.Http {
		for k, n := 0, g.Intn(3); k < n; k++ {
			name := fmt.Sprintf("%s%d", g.Pick("case", "ex", "same"), k)
			if g.P(90) {
				e := &sadl.ExampleDef{Target: up(h.Name) + "Request", Name: name, Example: value(h.Inputs)}
				if g.P(30) {
					e.Comment = g.Comment()
				}
				s.Examples = append(s.Examples, e)
			}
			if g.P(60) && h.Expected != nil {
				s.Examples = append(s.Examples, &sadl.ExampleDef{Target: up(h.Name) + "Response", Name: name, Example: value(h.Expected.Outputs)})
			} else if len(h.Exceptions) > 0 && h.Expected != nil {
				x := h.Exceptions[g.Intn(len(h.Exceptions))]
				if td := find(s, x.Type); td != nil && !used(s, x.Type, name) {
					s.Examples = append(s.Examples, &sadl.ExampleDef{Target: x.Type, Name: name, Example: g.Value(&td.TypeSpec, 0, 1)})
				}
			}
		}
	}
	for _, td := range s.Types {
		if g.P(10) && !used(s, td.Name, "other") {
			s.Examples = append(s.Examples, &sadl.ExampleDef{Target: td.Name, Name: "other", Example: g.Value(&td.TypeSpec, 0, 1)})
		}
	}
	p := g.Perm(len(s.Examples))
	list := make([]*sadl.ExampleDef, len(p))
	for i, j := range p {
		list[i] = s.Examples[j]
	}
	if g.P(50) {
		s.Examples = list
	}
}

// one example with this name and target; and only one exception with an example of this name, in any action
func used(s *sadl.Schema, target, name string) bool {
	for _, e := range s.Examples {
		if e.Name == name && !strings.HasSuffix(e.Target, "Request") && !strings.HasSuffix(e.Target, "Response") {
			return true
		}
	}
	return false
}

func find(s *sadl.Schema, n string) *sadl.TypeDef {
	for _, td := range s.Types {
		if td.Name == n {
			return td
		}
	}
	return nil
}

func up(s string) string {
	r := []rune(s)
	return strings.ToUpper(string(r[:1])) + string(r[1:])
}

func one(r *mon.Run, rnd *mon.Rand, i int) {
	g, s := model(rnd)
	broken := g.P(12)
	if broken {
		spoil(g, s)
	}
	r.Note(mon.JSON(s))
	m, err := sadl.NewModel(s)
	if err != nil {
		return // an example of an action without expected response, say
	}
	before := mon.JSON(m.Schema)
	conf := sadl.NewData()
	ns, in, out := s.Namespace, "Request", "Response"
	if g.P(15) {
		ns = "other.ns"
		conf.Put("namespace", ns)
	}
	if ns == "" {
		ns = "example"
	}
	if g.P(15) {
		in, out = "Input", "Output"
		conf.Put("useInputOutput", true)
	}
	d, want := smi.Expect(s, ns, in, out)
	text := mon.Capture(func() { err = smithy.Export(m, "", conf, true) })
	r.Observe(before, len(s.Types)+len(s.Http)+len(s.Operations) > 1)
	if after := mon.JSON(m.Schema); after != before {
		r.Failf("mutated", "exporting changed the model\n%s\n%s", before, after)
	}
	if d.Err != nil {
		r.Event("refused")
		if err == nil {
			r.Failf("accepted", "exported a model that Smithy cannot hold (%v)\n%s\n%s", d.Err, before, text)
		} else if text != "" {
			r.Failf("partial", "printed something and reported %v\n%s", err, text)
		}
		return
	}
	if err != nil {
		r.Failf("refused", "export refused the model: %v\n%s", err, before)
		return
	}
	got, err := smi.Parse(text)
	if err != nil {
		r.Failf("invalid", "the AST is not JSON: %v\n%s", err, text)
		return
	}
	if diffs := smi.Compare(d, want, got); len(diffs) > 0 {
		r.Failf("differs", "the AST differs from what the model says:\n%s\nmodel %s", strings.Join(diffs, "\n"), before)
	}
	orders := smi.Orders(text)
	for id, w := range d.Order {
		if strings.Join(orders[id], " ") != strings.Join(w, " ") {
			r.Failf("order", "members of %s are %v, in the model %v\n%s", id, orders[id], w, before)
		}
	}
	r.Event("document")
	r.EventN("shape", len(d.Shapes))
	r.EventN("action", len(s.Http))
	r.EventN("operation", len(s.Operations))
	r.EventN("example", strings.Count(text, "\"shapeId\"")+strings.Count(text, "\"input\": {"))
	if i%500 == 0 {
		r.Sample(got)
	}
	bad, good := smi.Dangling(got)
	r.EventN("ref resolved", good)
	if len(bad) > 0 {
		r.Failf("dangling", "references %v resolve to nothing\n%s", bad, before)
	}
	if again := mon.Capture(func() { err = smithy.Export(m, "", conf, true) }); again != text || err != nil {
		r.Failf("again", "a second export printed something else (error %v)\n%s\n%s", err, text, again)
	}
	if i%5 == 0 {
		r.Event("idl")
		idl := mon.Capture(func() { err = smithy.Export(m, "", conf, false) })
		head, body, _ := strings.Cut(idl, "\n")
		x, perr := smi.Parse(body)
		got, _ := smi.Parse(text)
		if err != nil || perr != nil || !strings.HasSuffix(head, " "+ns) || mon.JSON(x) != mon.JSON(got) {
			r.Failf("idl", "the text form (error %v, %v)\n%s\nis not the AST\n%s", err, perr, idl, text)
		}
	}
}

// spoil puts something into the model that Smithy cannot hold.
func spoil(g *gen.G, s *sadl.Schema) {
	switch g.Intn(10) {
	case 8, 9: // a bad type at a parameter
		var places []*sadl.TypeSpec
		for _, h := range s.Http {
			for _, p := range h.Inputs {
				places = append(places, &p.TypeSpec)
			}
			if h.Expected != nil {
				for _, p := range h.Expected.Outputs {
					places = append(places, &p.TypeSpec)
				}
			}
		}
		for _, o := range s.Operations {
			for _, p := range o.Inputs {
				places = append(places, &p.TypeSpec)
			}
			for _, p := range o.Outputs {
				places = append(places, &p.TypeSpec)
			}
		}
		if len(places) > 0 {
			ts := places[g.Intn(len(places))]
			*ts = sadl.TypeSpec{Type: "UnitValue", Value: "Decimal", Unit: "String"}
			if g.Bool() {
				*ts = sadl.TypeSpec{Type: "Array", Items: g.Pick("Array", "UnitValue", "Enum")}
			}
		}
	case 6: // the same with an operation
		if len(s.Operations) > 0 {
			b := g.Def("String")
			b.Name = up(s.Operations[g.Intn(len(s.Operations))].Name) + g.Pick("", "Request", "Response")
			s.Types = append(s.Types, b)
		}
	case 7: // an exception that is no structure
		b := g.Def(g.Pick("String", "Int32", "Bool", "Array", "Enum", "Map"))
		s.Types = append(s.Types, b)
		if len(s.Operations) > 0 && g.Bool() {
			op := s.Operations[g.Intn(len(s.Operations))]
			op.Exceptions = append(op.Exceptions, b.Name)
		} else if len(s.Http) > 0 {
			h := s.Http[g.Intn(len(s.Http))]
			x := &sadl.HttpExceptionSpec{Status: 418, Type: b.Name}
			h.Exceptions = append(h.Exceptions, x)
		}
	case 0:
		td := g.Def("UnitValue")
		s.Types = append(s.Types, td)
	case 1:
		td := g.Def("Array")
		td.Items = g.Pick("Array", "Map", "Enum", "Union", "UnitValue")
		s.Types = append(s.Types, td)
	case 2:
		td := g.Def("Map")
		td.Items = g.Pick("Array", "Map", "Enum", "Union", "UnitValue")
		s.Types = append(s.Types, td)
	case 3: // an inline definition with the name of another type
		a := g.Def("Struct")
		f := &sadl.StructFieldDef{Name: "clash"}
		f.Type, f.Items = "Array", "String"
		a.Fields = append(a.Fields, f)
		b := g.Def("String")
		b.Name = up(a.Name) + "Clash"
		if g.Bool() {
			s.Types = append(s.Types, a, b)
		} else {
			s.Types = append(s.Types, b, a)
		}
	case 4: // a type with the name of an action, its input or output
		if len(s.Http) > 0 {
			b := g.Def("String")
			b.Name = up(s.Http[g.Intn(len(s.Http))].Name) + g.Pick("", "Request", "Response")
			s.Types = append(s.Types, b)
		}
	case 5:
		a := g.Def("Struct")
		f := &sadl.StructFieldDef{Name: "unit"}
		f.Type, f.Value, f.Unit = "UnitValue", "Decimal", "String"
		a.Fields = append(a.Fields, f)
		s.Types = append(s.Types, a)
	}
}
