// Package gql generates GraphQL documents together with the types they stand for.
package gql

import (
	"fmt"
	"strings"

	"github.com/boynton/sadl"

	"verif/gen"
)

// Doc is a GraphQL document with the types it stands for.
type Doc struct {
	G     *gen.G
	Parts []string
	S     *sadl.Schema
	Ext   int
}

func (d *Doc) describe(ind string) (text, comment string) {
	switch d.G.Intn(5) {
	case 0:
		c := strings.ReplaceAll(d.G.Comment(), `"`, "")
		return ind + `"` + c + `"` + "\n", c
	case 1:
		a, b := d.G.Comment(), d.G.Comment()
		return ind + `"""` + "\n" + ind + a + "\n" + ind + b + "\n" + ind + `"""` + "\n", a + " " + b
	case 2:
		return ind + "# " + d.G.Comment() + "\n", ""
	}
	return "", ""
}

func (d *Doc) anno() string {
	if d.G.P(10) {
		return d.G.Pick(" @deprecated", ` @deprecated(reason: "no")`, " @a @b(x: 1)")
	}
	return ""
}

var builtin = map[string]string{"Int": "Int32", "Float": "Float64", "Boolean": "Bool", "String": "String", "ID": "ID", "Timestamp": "Timestamp", "UUID": "UUID"}

// Object is an object type with random fields.
func (d *Doc) Object(name string, targets []string, kw string) (string, *sadl.TypeDef) {
	g := d.G
	text, c := d.describe("")
	td := &sadl.TypeDef{Name: name, Comment: c, TypeSpec: sadl.TypeSpec{Type: "Struct"}}
	impl := ""
	if kw == "type" && g.P(15) {
		impl = g.Pick(" implements Thing", " implements Thing & Other")
	}
	text += kw + " " + name + impl + d.anno() + " {\n"
	used := map[string]bool{}
	for k, n := 0, g.Up(1, 6, 30); k < n; k++ {
		ft, fc := d.describe("  ")
		f := &sadl.StructFieldDef{Name: g.FieldName(used), Comment: fc}
		var gt, st string
		if len(targets) > 0 && g.P(50) {
			gt = g.PickS(targets)
			st = gt
		} else {
			gt = g.Pick("Int", "Float", "Boolean", "String", "ID", "Timestamp", "UUID")
			st = builtin[gt]
		}
		if g.P(35) {
			f.Type, f.Items = "Array", st
			if g.Bool() {
				gt += "!"
			}
			gt = "[" + gt + "]"
		} else {
			f.Type = st
		}
		if g.P(40) {
			f.Required = true
			gt += "!"
		}
		args := ""
		if kw != "input" && g.P(12) {
			args = g.Pick("(first: Int)", "(a: String = \"x\", b: [Int!]!)", "(where: Filter)")
		}
		sep := g.Pick("\n", "\n", ",\n", " # note\n")
		text += ft + "  " + f.Name + args + ": " + gt + d.anno() + sep
		td.Fields = append(td.Fields, f)
	}
	return text + "}\n", td
}

// Build makes a document and the types it stands for.
func Build(g *gen.G) *Doc {
	d := &Doc{G: g, S: &sadl.Schema{}}
	var objs, names, enums, unions []string
	for k, n := 0, g.Up(0, 5, 20); k < n; k++ {
		objs = append(objs, g.TypeName())
	}
	for k, n := 0, g.Range(0, 2); k < n; k++ {
		enums = append(enums, g.TypeName())
	}
	if len(objs) > 0 {
		for k, n := 0, g.Range(0, 2); k < n; k++ {
			unions = append(unions, g.TypeName())
		}
	}
	names = append(append(append(names, objs...), enums...), unions...)
	type part struct {
		text string
		td   *sadl.TypeDef
	}
	var parts []part
	for _, o := range objs {
		t, td := d.Object(o, names, "type")
		parts = append(parts, part{t, td})
	}
	for _, e := range enums {
		text, c := d.describe("")
		td := &sadl.TypeDef{Name: e, Comment: c, TypeSpec: sadl.TypeSpec{Type: "Enum"}}
		text += "enum " + e + d.anno() + " {\n"
		for k, n := 0, g.Up(1, 5, 40); k < n; k++ {
			ft, fc := d.describe("  ")
			sym := fmt.Sprintf("%s_%d", g.Pick("RED", "blue", "X", "_y"), k)
			text += ft + "  " + sym + d.anno() + g.Pick("\n", ",\n")
			td.Elements = append(td.Elements, &sadl.EnumElementDef{Symbol: sym, Comment: fc})
		}
		parts = append(parts, part{text + "}\n", td})
	}
	for _, u := range unions {
		text, c := d.describe("")
		td := &sadl.TypeDef{Name: u, Comment: c, TypeSpec: sadl.TypeSpec{Type: "Union"}}
		p := g.Perm(len(objs))
		var l []string
		for _, j := range p[:g.Range(1, len(p))] {
			l = append(l, objs[j])
			td.Variants = append(td.Variants, &sadl.UnionVariantDef{Name: objs[j], TypeSpec: sadl.TypeSpec{Type: objs[j]}})
		}
		parts = append(parts, part{text + "union " + u + d.anno() + " = " + strings.Join(l, g.Pick(" | ", "|", "\n  | ")) + "\n", td})
	}
	// things that are accepted but not part of the model
	ext := func(t string) { parts = append(parts, part{t, nil}); d.Ext++ }
	if g.P(40) {
		q := g.Pick("Query", "RootQuery", "Schema")
		t, _ := d.Object(q, names, "type")
		ext(t)
		roots := []string{"query: " + q}
		for _, op := range []string{"mutation", "subscription"} {
			if g.Bool() {
				n := strings.ToUpper(op[:1]) + op[1:] + g.Pick("", "Root")
				t, _ := d.Object(n, names, "type")
				ext(t)
				roots = append(roots, op+": "+n)
			}
		}
		text := ""
		for _, j := range g.Perm(len(roots)) {
			text += "  " + roots[j] + "\n"
		}
		ext("schema {\n" + text + "}\n")
	}
	if g.P(25) {
		t, _ := d.Object("Thing", names, "interface")
		ext(t)
	}
	if g.P(25) {
		t, _ := d.Object("Filter", enums, "input")
		ext(t)
	}
	if g.P(30) {
		ext("scalar Timestamp\n")
	}
	if g.P(30) {
		ext("scalar UUID\n")
	}
	for _, j := range g.Perm(len(parts)) {
		d.Parts = append(d.Parts, parts[j].text)
		if parts[j].td != nil {
			d.S.Types = append(d.S.Types, parts[j].td)
		}
	}
	return d
}
