// C32: import, export and import again gives the same model.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/graphql"
	"github.com/boynton/sadl/openapi"
	"github.com/boynton/sadl/smithy"

	"verif/gen"
	"verif/imp"
	"verif/mon"
	"verif/oas"
)

func main() {
	mon.Main(mon.Spec{Prop: "C32",
		Rule:        "random OpenAPI, Swagger, GraphQL and Smithy documents are imported, exported to the format they came in (Swagger as OpenAPI) and imported again: the two models must be the same up to what the format has no place for (listed in the harness); random SADL models are taken through Smithy and GraphQL, compared with the result in types, fields, symbols and actions, and then the same is done with the result; non-trivial = distinct document or model with at least two definitions",
		Assumptions: []string{"OpenAPI keeps whole-type examples only, no Int8, Int16 and inline UUID, no separate name for a union's variants; it is the exporter's document that must be importable, so models with exceptions of a base type are counted and left out", "GraphQL keeps no comments, aliases and UUID or Timestamp, and the importer documents that it does not read lists of lists", "Smithy as exported keeps no annotations or examples, has no service without operations and no namespace without shapes"},
		MinEvents:   map[string]int{"openapi": 400, "swagger": 400, "graphql": 1000, "smithy": 1000, "own smithy": 500, "own graphql": 500}},
		func(r *mon.Run) {
			r.Cases("own", r.Scale(3000, 60000), func(i int, g *mon.Rand) { own(r, g, i) })
			r.Cases("again", r.Scale(4000, 60000), func(i int, g *mon.Rand) { one(r, g, i) })
		})
}

func one(r *mon.Run, g *mon.Rand, i int) {
	kind := imp.Kinds[i%len(imp.Kinds)]
	m, text, err := imp.Import(g, r.Scratch(), kind, g.Bool(), sadl.NewData())
	r.Note(text)
	if err != nil {
		mon.Bug("%s: a valid document was rejected: %v\n%s", kind, err, text)
	}
	r.Observe(text, len(m.Types)+len(m.Http) > 1)
	again(r, kind, m, text)
}

// trip exports a model in a format and imports what comes out.
func trip(r *mon.Run, kind string, m *sadl.Model) (*sadl.Model, string) {
	conf := sadl.NewData()
	var out string
	var err error
	name := "spec.json"
	switch kind {
	case "openapi", "swagger":
		d, e := openapi.NewGenerator(m, conf).ExportToOAS3()
		out, err = sadl.Pretty(d), e
	case "graphql":
		name = "spec.graphql"
		out, err = graphql.FromSadl(m, conf)
	case "smithy":
		out = mon.Capture(func() { err = smithy.Export(m, "", conf, true) })
	}
	if err != nil {
		r.Event(kind + " refused")
		return nil, ""
	}
	f := filepath.Join(r.Scratch(), name)
	os.WriteFile(f, []byte(out), 0644)
	var m2 *sadl.Model
	if p := mon.Try(func() {
		switch kind {
		case "openapi", "swagger":
			m2, err = openapi.Import([]string{f}, conf)
		case "graphql":
			m2, err = graphql.Import([]string{f}, conf)
		case "smithy":
			m2, err = smithy.Import([]string{f}, conf)
		}
	}); p != "" {
		r.Failf("crash-"+kind, "%s: %s\n%s", kind, p, out)
		return nil, ""
	}
	if err != nil {
		if kind == "graphql" && strings.Contains(out, "[[") {
			r.Event("graphql lists of lists")
			return nil, ""
		}
		if loose := untyped(&m.Schema); loose != "" && kind != "smithy" {
			r.Event(kind + " exception of type " + loose)
			return nil, ""
		}
		r.Failf("rejected-"+kind, "%s: what was exported is rejected: %v\n%s\nmodel %s", kind, err, out, mon.JSON(m.Schema))
		return nil, ""
	}
	return m2, out
}

func again(r *mon.Run, kind string, m *sadl.Model, text string) {
	m2, out := trip(r, kind, m)
	if m2 == nil {
		return
	}
	r.Event(kind)
	var a, b interface{}
	if kind == "openapi" || kind == "swagger" {
		a, b = oas.Canon(oas.Keeps(only(&m.Schema))), oas.Canon(&m2.Schema)
	} else {
		a, b = tree(m), tree(m2)
		if kind == "graphql" {
			a, b = bare(a), bare(b)
		}
		if kind == "smithy" {
			a, b = service(a), service(b)
		}
	}
	var diffs []string
	oas.Diff("", a, b, nil, &diffs)
	if len(diffs) > 0 {
		sort.Strings(diffs)
		r.Failf("differs-"+kind, "%s: %s\nmodel %s\nbecame %s\nthrough %s\ndocument %s", kind, strings.Join(diffs, "\n"), mon.JSON(a), mon.JSON(b), out, text)
	}
}

var scalars = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "String", "Timestamp", "UUID"}

func own(r *mon.Run, rnd *mon.Rand, i int) {
	kind := []string{"smithy", "graphql"}[i%2]
	o := gen.Opts{Kinds: append([]string{"Array", "Struct", "Struct", "Struct", "Enum", "Union"}, scalars...), FieldKinds: append([]string{"Array"}, scalars...), Constraints: true, FieldCons: true, Sizes: true, Recursive: true, NamedItems: true,
		Comments: true, FieldComments: true, MinTypes: 1, MaxTypes: 9}
	if kind == "smithy" {
		o.Kinds = append(o.Kinds, "Map")
		o.FieldKinds = append(o.FieldKinds, "Map")
	}
	g := gen.New(rnd, o)
	s := g.Types()
	if kind == "smithy" {
		g.Http(gen.HttpOpts{Min: 0, Max: 5, Query: true, Headers: true, OutHeaders: true, Exceptions: true, NoContent: true, ReqParams: true,
			Methods:    []string{"GET", "PUT", "POST", "DELETE", "PATCH"},
			ParamKinds: []string{"String", "Int32", "Int64", "Bool", "Float64", "Timestamp"},
			BodyTypes:  func(td *sadl.TypeDef) bool { return td.Type == "Struct" }, BodyKinds: []string{"String"}})
	}
	m, err := sadl.NewModel(s)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	text := mon.JSON(s)
	r.Note(text)
	r.Observe(text, len(m.Types)+len(m.Http) > 1)
	m2, out := trip(r, kind, m)
	if m2 == nil {
		return
	}
	r.Event("own " + kind)
	if d := kept(kind, s, &m2.Schema); len(d) > 0 {
		r.Failf("own-"+kind, "%s: %s\nmodel %s\nthrough %s", kind, strings.Join(d, "\n"), text, out)
		return
	}
	again(r, kind, m2, text+"\n"+out)
}

// kept compares what both formats have a place for: structures with their
// fields, enums, unions and actions.
func kept(kind string, a, b *sadl.Schema) (bad []string) {
	say := func(format string, args ...interface{}) { bad = append(bad, fmt.Sprintf(format, args...)) }
	types := map[string]*sadl.TypeDef{}
	for _, td := range b.Types {
		types[td.Name] = td
	}
	for _, td := range a.Types {
		n := types[td.Name]
		if n == nil {
			if kind == "smithy" || td.Type == "Struct" || td.Type == "Enum" {
				say("%s is lost", td.Name)
			}
			continue
		}
		switch td.Type {
		case "Struct":
			if n.Type != "Struct" {
				say("%s became a %s", td.Name, n.Type)
			}
			if len(n.Fields) != len(td.Fields) {
				say("%s has %d fields, had %d", td.Name, len(n.Fields), len(td.Fields))
				continue
			}
			for i, f := range td.Fields {
				g := n.Fields[i]
				if g.Name != f.Name || g.Required != f.Required {
					say("%s.%s became %s, required %v", td.Name, f.Name, g.Name, g.Required)
				}
				if kind == "smithy" && g.Comment != f.Comment {
					say("%s.%s has comment %q, had %q", td.Name, f.Name, g.Comment, f.Comment)
				}
				was, is := resolve(a, f.Type), resolve(b, g.Type)
				if w := scalar[was]; w != nil {
					was = w[0]
					if kind == "graphql" {
						was = w[1]
					}
				}
				if is == "UUID" {
					is = "String"
				}
				if is != was {
					say("%s.%s was a %s, became a %s", td.Name, f.Name, was, is)
				}
			}
		case "Enum":
			if mon.JSON(symbols(n)) != mon.JSON(symbols(td)) {
				say("%s has %v, had %v", td.Name, symbols(n), symbols(td))
			}
		}
	}
	for i, h := range a.Http {
		if len(b.Http) != len(a.Http) {
			say("%d actions, were %d", len(b.Http), len(a.Http))
			break
		}
		g := b.Http[i]
		if g.Method != h.Method || g.Expected.Status != h.Expected.Status || len(g.Inputs) != len(h.Inputs) || len(g.Exceptions) != len(h.Exceptions) {
			say("action %s became %s", mon.JSON(h), mon.JSON(g))
		}
	}
	return bad
}

// resolve follows the definitions of a name, to a base type or to the name of a
// type with members.
func resolve(s *sadl.Schema, n string) string {
	for _, td := range s.Types {
		if td.Name == n {
			switch td.Type {
			case "Struct", "Enum", "Union":
				return n
			}
			return resolve(s, td.Type)
		}
	}
	return n
}

func symbols(td *sadl.TypeDef) (l []string) {
	for _, e := range td.Elements {
		l = append(l, e.Symbol)
	}
	return l
}

var scalar = map[string][]string{ // through Smithy, through GraphQL
	"Bool": {"Bool", "Bool"}, "Int8": {"Int8", "Int32"}, "Int16": {"Int16", "Int32"}, "Int32": {"Int32", "Int32"}, "Int64": {"Int64", "Float64"},
	"Float32": {"Float32", "Float64"}, "Float64": {"Float64", "Float64"}, "Decimal": {"Decimal", "Float64"}, "String": {"String", "String"},
	"Timestamp": {"Timestamp", "String"}, "UUID": {"String", "String"},
}

// untyped names the type of an exception that is none of the schema's types.
func untyped(s *sadl.Schema) string {
	names := map[string]bool{"": true}
	for _, td := range s.Types {
		names[td.Name] = true
	}
	for _, h := range s.Http {
		for _, x := range h.Exceptions {
			if !names[x.Type] {
				return x.Type
			}
		}
	}
	return ""
}

// bare drops what GraphQL has no place for that is read back: comments, and
// scalar types of other names.
func bare(x interface{}) interface{} {
	switch v := x.(type) {
	case map[string]interface{}:
		delete(v, "comment")
		for _, k := range []string{"type", "items"} {
			switch v[k] {
			case "UUID", "Timestamp", "ID":
				v[k] = "String"
			}
		}
		for _, e := range v {
			bare(e)
		}
	case []interface{}:
		for _, e := range v {
			bare(e)
		}
	}
	return x
}

// service drops what the Smithy export has no place for: annotations and
// examples, and without operations the service; a label is always required.
func service(x interface{}) interface{} {
	plain(x)
	m := x.(map[string]interface{})
	delete(m, "examples")
	if m["types"] == nil && m["http"] == nil {
		delete(m, "namespace") // no shape to name it
	}
	if m["http"] == nil {
		delete(m, "name")
		delete(m, "version")
		delete(m, "comment")
	} else if n, ok := m["name"].(string); ok {
		m["name"] = sadl.Capitalize(n)
	}
	return x
}

func plain(x interface{}) {
	switch v := x.(type) {
	case map[string]interface{}:
		delete(v, "annotations")
		if v["path"] == true {
			v["required"] = true
		}
		for _, e := range v {
			plain(e)
		}
	case []interface{}:
		for _, e := range v {
			plain(e)
		}
	}
}

// only gives the schema without what OpenAPI has no place for.
func only(s *sadl.Schema) *sadl.Schema {
	var c sadl.Schema
	b, _ := json.Marshal(s)
	if err := json.Unmarshal(b, &c); err != nil {
		mon.Bug("%v", err)
	}
	var spec func(ts *sadl.TypeSpec) string
	spec = func(ts *sadl.TypeSpec) string {
		was := ts.Type
		switch was {
		case "Int8", "Int16":
			ts.Type = "Int32"
		case "UUID":
			ts.Type = "String"
		default:
			was = ""
		}
		switch ts.Items {
		case "Int8", "Int16":
			ts.Items = "Int32"
		case "UUID":
			ts.Items = "String"
		}
		for _, v := range ts.Variants {
			spec(&v.TypeSpec)
		}
		for _, f := range ts.Fields {
			if w := spec(&f.TypeSpec); w != "" && f.Comment == "" {
				f.Comment = w
			}
		}
		return was
	}
	delete(c.Annotations, "x_openapi_version")
	for _, td := range c.Types {
		if td.Type == "UUID" {
			continue
		}
		if w := spec(&td.TypeSpec); w != "" && td.Comment == "" {
			td.Comment = w
		}
	}
	for _, h := range c.Http {
		for _, in := range h.Inputs {
			spec(&in.TypeSpec)
		}
		for _, out := range h.Expected.Outputs {
			spec(&out.TypeSpec)
		}
	}
	names := map[string]bool{}
	for _, td := range c.Types {
		names[td.Name] = true
	}
	var exs []*sadl.ExampleDef
	for _, e := range c.Examples {
		if names[e.Target] {
			exs = append(exs, e)
		}
	}
	c.Examples = exs
	return &c
}

func tree(m *sadl.Model) interface{} {
	s := m.Schema
	sort.Slice(s.Types, func(i, j int) bool { return s.Types[i].Name < s.Types[j].Name })
	b, _ := json.Marshal(s)
	var v interface{}
	json.Unmarshal(b, &v)
	return v
}
