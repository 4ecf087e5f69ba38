package jx

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/java"

	"verif/gen"
	"verif/mon"
)

var kinds = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UnitValue", "UUID", "Array", "Map", "Struct", "Struct", "Struct", "Struct", "Enum", "Enum", "Union", "Union", "Any"}

// Proj is a model with the options to generate Java for it.
type Proj struct {
	API
	M       *sadl.Model
	Conf    *sadl.Data
	Package string
	Source  string
	Header  string
	Domain  string
}

// Paths is where the source of a class goes.
func (p *Proj) Path(pkg, class string) string {
	return filepath.Join(p.Source, strings.ReplaceAll(pkg, ".", "/"), class+".java")
}

func scalar(ts *sadl.TypeSpec) bool {
	switch ts.Type {
	case "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Timestamp", "UUID", "Enum":
		return true
	}
	return false
}

// HasStamps: the collection holds Timestamps directly, or collections of them.
func (a *API) HasStamps(ts *sadl.TypeSpec) bool {
	t := a.Resolve(ts)
	if t.Type != "Array" && t.Type != "Map" {
		return false
	}
	it := a.named(t.Items)
	return it.Type == "Timestamp" || a.HasStamps(it)
}

var odd = []string{"aName", "URL", "xIndex", "Title2", "iD", "A"}

// Model generates a model and options; http adds actions suitable for servers and clients.
func Model(rnd *mon.Rand, http bool) *Proj {
	g := gen.New(rnd, gen.Opts{Kinds: kinds, Constraints: true, FieldCons: true, Sizes: true, Recursive: true, NamedItems: true, MapKeyNamed: true, InlineEnum: true, InlineStruct: true,
		Hostile: true, Comments: true, FieldComments: true, EnumComments: true, Annotations: true, EmptyStruct: true, LowerNames: true, MinTypes: 1, MaxTypes: 9})
	if http { // names of classes that are known without an import, or imported with all others of their package
		g.O.Names = []string{"Error", "Link", "Form", "Locale", "Date", "Process", "Record", "Currency", "Cookie"}
	}
	p := &Proj{}
	s := g.Types()
	p.S, p.G = s, g
	n := 0
	var fix func(fs []*sadl.StructFieldDef)
	fix = func(fs []*sadl.StructFieldDef) {
		for i, f := range fs {
			if f.Type == "Struct" || f.Type == "Enum" { // an inner class is named after the field
				n++
				f.Name = fmt.Sprintf("%sInner%d", f.Name, n)
				fix(f.Fields)
			} else if i == 0 && g.P(15) {
				f.Name = g.PickS(odd)
			} else if i == 0 && g.P(5) {
				f.Name, f.TypeSpec = "message", sadl.TypeSpec{Type: "String"}
			}
			if td := p.Resolve(&f.TypeSpec); td.Type == "Array" || td.Type == "Map" {
				p.flat(td)
			}
		}
	}
	for _, td := range s.Types {
		fix(td.Fields)
		p.flat(&td.TypeSpec)
		for _, el := range td.Elements {
			if g.P(20) {
				n++
				if el.Annotations == nil {
					el.Annotations = map[string]string{}
				}
				el.Annotations["x_enumValue"] = fmt.Sprintf("%s-%d", g.Pick("val", "a b", "x.y", "q\"q", "back\\slash", "\u00e9"), n)
			}
		}
		if td.Type == "String" && g.P(15) {
			td.Pattern, td.Values = g.Pick("^\"[a-z]\"$", "\\d+\\.\\d*", "^[^\\\\]$"), nil
		}
	}
	for i, td := range s.Types {
		if td.Type == "Timestamp" && i > 0 && g.Bool() {
			s.Types = append(s.Types, &sadl.TypeDef{Name: "Times", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{
				{Name: "all", TypeSpec: sadl.TypeSpec{Type: "Array", Items: td.Name}}, {Name: "one", Required: g.Bool(), TypeSpec: sadl.TypeSpec{Type: td.Name}}}}})
			break
		}
	}
	ho := gen.HttpOpts{Max: 3, Query: true, Headers: true, OutHeaders: true, Exceptions: true, DefaultExc: true, NoContent: true,
		Methods:    []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"},
		ParamKinds: []string{"String", "Int8", "Int16", "Int32", "Int64", "Bool", "Float32", "Float64", "Decimal", "UUID", "Timestamp"}, NamedParams: func(td *sadl.TypeDef) bool { return scalar(&td.TypeSpec) },
		BodyKinds: []string{"String", "Int32", "Bool", "Decimal"}, ReqParams: true, DistinctPaths: false,
		BodyTypes: func(td *sadl.TypeDef) bool {
			return td.Type != "Bytes" && td.Type != "Timestamp" && td.Type != "Any" && !p.HasStamps(&td.TypeSpec)
		}}
	if http {
		ho.Min, ho.Max, ho.RepeatExc = 1, 5, 30
	}
	g.Http(ho)
	if http {
		for _, h := range s.Http {
			for _, in := range h.Inputs {
				if !in.Path && in.Query == "" && in.Header == "" {
					p.inline(&in.TypeSpec)
				}
			}
			for _, out := range h.Expected.Outputs {
				if out.Header == "" {
					p.inline(&out.TypeSpec)
				}
			}
		}
	}
	p.options()
	m, err := sadl.NewModel(s)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	p.M = m
	return p
}

// inline replaces some types by others without a name.
func (p *Proj) inline(ts *sadl.TypeSpec) {
	g := p.G
	if !g.P(20) {
		return
	}
	item := func() string {
		var l []string
		for _, td := range p.S.Types {
			if td.Type != "Timestamp" && !p.HasStamps(&td.TypeSpec) && td.Type != "Bytes" && td.Type != "Any" {
				l = append(l, td.Name)
			}
		}
		return g.PickS(append(l, "String", "Int32"))
	}
	switch g.Intn(4) {
	case 0:
		*ts = sadl.TypeSpec{Type: "Array", Items: item()}
	case 1:
		*ts = sadl.TypeSpec{Type: "Map", Keys: "String", Items: item()}
	case 2:
		*ts = sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{{Name: "left", Required: g.Bool(), TypeSpec: sadl.TypeSpec{Type: "Int32"}}, {Name: "right", TypeSpec: sadl.TypeSpec{Type: item()}}}}
	default:
		*ts = sadl.TypeSpec{Type: "Enum", Elements: []*sadl.EnumElementDef{{Symbol: "up"}, {Symbol: "down"}}}
	}
}

// flat keeps collections of collections of Timestamps out.
func (p *Proj) flat(ts *sadl.TypeSpec) {
	if ts.Type == "Array" || ts.Type == "Map" {
		if p.HasStamps(p.named(ts.Items)) {
			ts.Items = "String"
		}
	}
}

func rev(s string) string {
	l := strings.Split(s, ".")
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return strings.Join(l, ".")
}

func (p *Proj) options() {
	g, s := p.G, p.S
	c := sadl.NewData()
	p.Conf = c
	flag := func(name string, def bool) bool {
		if g.P(50) {
			return def
		}
		v := g.Bool()
		c.Put(name, v)
		return v
	}
	p.Immutable = flag("immutable", true)
	p.Instants = flag("instants", true)
	p.Pretty = flag("json", false)
	p.ServiceExc = flag("service-exception", false)
	p.Service = sadl.Capitalize(s.Name)
	if g.P(25) {
		c.Put("name", g.Pick("MyService", "myService"))
		p.Service = "MyService"
	}
	switch g.Intn(4) {
	case 0:
		s.Namespace = ""
		p.Domain = "host.example.org" // from the environment
	case 1:
		p.Domain = g.Pick("acme.com", "a.b.example", "local")
		c.Put("domain", p.Domain)
	default:
		p.Domain = rev(s.Namespace)
	}
	p.Package = rev(p.Domain)
	if g.P(25) {
		p.Package = g.Pick("foo", "com.foo.bar")
		c.Put("package", p.Package)
	}
	p.Model = p.Package + ".model"
	if g.P(25) {
		p.Model = g.Pick("org.models", "org.models.v1")
		c.Put("model-package", p.Model)
	}
	p.Source = "src/main/java"
	if g.P(20) {
		p.Source = g.Pick("java", "gen/src")
		c.Put("source", p.Source)
	}
	p.Header = "//\n// Generated by sadl\n//\n"
	if g.P(20) {
		p.Header = "// my own header\n"
		c.Put("header", p.Header)
	}
}

func Tree(dir string) []string {
	var l []string
	filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			rel, _ := filepath.Rel(dir, path)
			l = append(l, rel)
		}
		return nil
	})
	sort.Strings(l)
	return l
}

// Export runs the generator; false when it reported a violation.
func (p *Proj) Export(r *mon.Run, dir string) bool {
	before := mon.JSON(p.M.Schema)
	r.Note(before + p.Conf.String())
	var err error
	out := mon.Capture(func() { err = java.Export(p.M, dir, p.Conf) })
	if err != nil {
		r.Failf("refused", "the generator refused the model: %v\n%s%s\n%s", err, out, p.Conf, before)
		return false
	}
	if after := mon.JSON(p.M.Schema); after != before {
		r.Failf("mutated", "generating changed the model\n%s\n%s", before, after)
		return false
	}
	return true
}

// Sources are the texts of the generated files.
func Sources(dir string) string {
	var b strings.Builder
	for _, f := range Tree(dir) {
		t, _ := os.ReadFile(filepath.Join(dir, f))
		fmt.Fprintf(&b, "=== %s\n%s", f, t)
	}
	return b.String()
}

func Export(m *sadl.Model, dir string, conf *sadl.Data) error { return java.Export(m, dir, conf) }
