// C13: the GraphQL import keeps the meaning of the document and never crashes.
package main

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/graphql"

	"verif/gen"
	"verif/gql"
	"verif/mon"
)

func main() {
	mon.Main(mon.Spec{Prop: "C13",
		Rule:        "random GraphQL documents (objects, enums, unions, lists, non-null, descriptions, comments, arguments, directives, interfaces, inputs, schema definitions in any position) imported from a file; the model is compared with the types the document was generated from; documents with one unsupported or invalid thing must be refused; mutated documents must give a model or an error, never a crash; exporting an imported model and importing it again gives the same types; non-trivial = distinct document with at least one object",
		Assumptions: []string{"objects do not refer to interfaces, input types or operation types", "descriptions have no leading or trailing blank space", "damaged documents do not contain the word String: the third-party GraphQL parser overflows the stack when a definition starts with it, before any code of this repository runs"},
		MinEvents:   map[string]int{"document": 1000, "object": 2000, "field": 5000, "list field": 1000, "enum": 500, "union": 300, "description": 1000, "ignored definition": 500, "refused": 1000, "mutant": 3000, "mutant accepted": 100, "round trip": 300}},
		func(r *mon.Run) {
			r.Cases("import", r.Scale(5000, 80000), func(i int, g *mon.Rand) { one(r, g, i) })
		})
}

func imp(r *mon.Run, text string, conf *sadl.Data) (*sadl.Model, error) {
	path := filepath.Join(r.Scratch(), "doc.graphql")
	if err := os.WriteFile(path, []byte(text), 0644); err != nil {
		mon.Bug("%v", err)
	}
	if !graphql.IsValidFile(path) {
		r.Failf("filetype", "%s is not recognised as a GraphQL file", path)
	}
	return graphql.Import([]string{path}, conf)
}

func one(r *mon.Run, rnd *mon.Rand, i int) {
	g := gen.New(rnd, gen.Opts{})
	d := gql.Build(g)
	text := strings.Join(d.Parts, g.Pick("", "\n", "\n# ---\n"))
	conf := sadl.NewData()
	name, ns := "generatedFromGraphQL", ""
	if g.Bool() {
		name = "svc"
		conf.Put("name", name)
	}
	if g.Bool() {
		ns = "com.acme"
		conf.Put("namespace", ns)
	}
	r.Note(text)
	if len(d.Parts) > 0 {
		m, err := imp(r, text, conf)
		r.Observe(text, strings.Contains(text, "type "))
		if err != nil {
			r.Failf("refused", "import refused the document: %v\n%s", err, text)
			return
		}
		if m.Name != name || m.Namespace != ns {
			r.Failf("name", "the model is %q %q, want %q %q", m.Name, m.Namespace, name, ns)
		}
		idn := 0
		var got, want []string
		for _, td := range m.Types {
			if td.Name == "ID" {
				idn++
				if td.Type != "String" {
					r.Failf("id", "type ID is %s", mon.JSON(td))
				}
				continue
			}
			got = append(got, mon.JSON(td))
		}
		for _, td := range d.S.Types {
			want = append(want, mon.JSON(td))
			switch td.Type {
			case "Struct":
				r.Event("object")
				r.EventN("field", len(td.Fields))
				for _, f := range td.Fields {
					if f.Type == "Array" {
						r.Event("list field")
					}
					if f.Comment != "" {
						r.Event("description")
					}
				}
			case "Enum":
				r.Event("enum")
			default:
				r.Event("union")
			}
		}
		r.EventN("ignored definition", d.Ext)
		if idn != 1 {
			r.Failf("id", "%d definitions of ID", idn)
		}
		if len(m.Http)+len(m.Operations)+len(m.Examples) > 0 {
			r.Failf("extra", "the model has actions or examples: %s", mon.JSON(m.Schema))
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			r.Failf("differs", "the imported types are\n%s\nexpected\n%s\ndocument\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"), text)
		}
		r.Event("document")
		if i%4 == 0 && len(d.S.Types) > 0 {
			roundTrip(r, m, want)
		}
	}
	refuse(r, g, d, text)
	// the third party parser overflows the stack when a definition starts with the word String
	mutate(r, g, strings.ReplaceAll(text, "String", "Int"))
}

// roundTrip: export the imported model with UUID and Timestamp kept as scalars, import again.
func roundTrip(r *mon.Run, m *sadl.Model, want []string) {
	conf := sadl.NewData()
	conf.Put("custom-scalars", map[string]interface{}{"UUID": "UUID", "Timestamp": "Timestamp"})
	strip := func(types []*sadl.TypeDef) string {
		var l []string
		for _, td := range types {
			if td.Name == "ID" {
				continue
			}
			c := *td
			c.Comment = ""
			c.Fields, c.Elements = nil, nil
			for _, f := range td.Fields {
				f2 := *f
				f2.Comment = ""
				if f2.Type == "ID" {
					f2.Type = "String"
				}
				if f2.Items == "ID" {
					f2.Items = "String"
				}
				c.Fields = append(c.Fields, &f2)
			}
			for _, e := range td.Elements {
				e2 := *e
				e2.Comment = ""
				c.Elements = append(c.Elements, &e2)
			}
			l = append(l, mon.JSON(&c))
		}
		return strings.Join(l, "\n")
	}
	text, err := graphql.FromSadl(m, conf)
	if err != nil {
		r.Failf("export", "an imported model cannot be exported: %v\n%s", err, mon.JSON(m.Schema))
		return
	}
	m2, err := imp(r, text, sadl.NewData())
	if err != nil {
		r.Failf("reimport", "an exported model cannot be imported: %v\n%s", err, text)
		return
	}
	if a, b := strip(m.Types), strip(m2.Types); a != b {
		r.Failf("round-trip", "exporting and importing again gives\n%s\nfrom\n%s", b, a)
	}
	r.Event("round trip")
}

func refuse(r *mon.Run, g *gen.G, d *gql.Doc, text string) {
	bad := g.Pick("type Odd {\n  a: [[Int]]\n}\n", "type Odd {\n  a: [[Int!]!]!\n}\n", "type Odd {\n  z: Int\n  a: [[String]]!\n}\n", "type Odd {\n  z: Int\n  a: [[String]!]\n}\n",
		"scalar Odd\n", "scalar Money\n", "extend type Foo {\n  a: Int\n}\n", "directive @foo on FIELD\n", "type Odd {\n  a Int\n}\n", "type Odd {\n  a: Int\n", "enum Odd {\n",
		"union Odd = \n}", "type {\n a: Int\n}\n", "query { a }\n", "{ a }\n", "fragment f on Foo { a }\n", "\x01", "type Odd { a: \"x\" }", "DUP", "NOFILE", "TWO")
	conf := sadl.NewData()
	var err error
	switch bad {
	case "NOFILE":
		_, err = graphql.Import([]string{filepath.Join(r.Scratch(), "none.graphql")}, conf)
	case "TWO":
		if g.Bool() {
			_, err = graphql.Import([]string{filepath.Join(r.Scratch(), "doc.graphql"), filepath.Join(r.Scratch(), "doc.graphql")}, conf)
		} else {
			_, err = graphql.Import(nil, conf)
		}
	default:
		if bad == "DUP" {
			if len(d.S.Types) == 0 {
				return
			}
			bad = g.Pick("type ", "enum ") + d.S.Types[g.Intn(len(d.S.Types))].Name + " {\n  a" + g.Pick(": Int", "") + "\n}\n"
			if strings.HasPrefix(bad, "enum") {
				bad = strings.Replace(bad, ": Int", "", 1)
			} else {
				bad = strings.Replace(bad, "a\n", "a: Int\n", 1)
			}
		}
		at := g.Intn(len(d.Parts) + 1)
		if strings.HasSuffix(bad, "\n") {
			text = strings.Join(d.Parts[:at], "\n") + "\n" + bad + strings.Join(d.Parts[at:], "\n")
		} else {
			text = strings.Join(d.Parts, "\n") + "\n" + bad
		}
		if bad == "type Odd {\n  a: Int\n" || bad == "enum Odd {\n" {
			text = strings.Join(d.Parts, "\n") + "\n" + bad
		}
		r.Note(text)
		_, err = imp(r, text, conf)
	}
	if err == nil {
		r.Failf("not-refused", "%q was imported without an error\n%s", bad, text)
		return
	}
	r.Event("refused")
}

func mutate(r *mon.Run, g *gen.G, text string) {
	toks := []string{"{", "}", "[", "]", "!", ":", "|", "=", "\"", "\"\"\"", "#", "type", "enum", "union", "input", "scalar", "schema", "interface", "extend", "[[Int]]", "ID", "@x", "(", ")", "\n", ",", "&", "$a", "...", "\x00", "é", "on", "query", "implements"}
	b := text
	for k, n := 0, g.Range(1, 3); k < n; k++ {
		if len(b) == 0 {
			b = g.PickS(toks)
			continue
		}
		p := g.Intn(len(b))
		q := p + g.Intn(len(b)-p)
		if q > p+30 {
			q = p + 30
		}
		switch g.Intn(4) {
		case 0:
			b = b[:p] + b[q:]
		case 1:
			b = b[:p] + g.PickS(toks) + b[p:]
		case 2:
			b = b[:p] + g.PickS(toks) + b[q:]
		case 3:
			b = b[:q] + b[p:]
		}
	}
	r.Note(b)
	m, err := imp(r, b, sadl.NewData())
	r.Event("mutant")
	if err == nil {
		r.Event("mutant accepted")
		if m == nil {
			r.Failf("nothing", "neither a model nor an error for\n%s", b)
			return
		}
		for _, td := range m.Types {
			for _, f := range td.Fields {
				if f.Type == "" || f.Type == "Array" && (f.Items == "" || f.Items == "Array") {
					r.Failf("untyped", "field %s.%s was imported without its type\n%s", td.Name, f.Name, b)
				}
			}
		}
		if _, err := sadl.NewModel(&m.Schema); err != nil {
			r.Failf("invalid", "the imported model is invalid: %v\n%s", err, b)
		}
	}
}
