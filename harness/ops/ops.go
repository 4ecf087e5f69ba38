// Package ops is a set of conversions (exports, imports, validation, lookups) over generated inputs, each a function of
// its input alone, to be executed in different histories, processes and threads.
package ops

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/graphql"
	"github.com/boynton/sadl/httptrace"
	"github.com/boynton/sadl/java"
	"github.com/boynton/sadl/openapi"
	"github.com/boynton/sadl/smithy"

	"verif/gen"
	"verif/gox"
	"verif/mon"
	"verif/oas"
	"verif/smi"
	"verif/src"
)

// World is one set of inputs; everything in it is a function of the seed.
type World struct {
	Seed    uint64
	Models  []*sadl.Model
	schemas []string
	gens    []*gen.G
	files   map[string]string
}

// Op is one conversion on a world.
type Op struct {
	Name  string
	Model int    // which model, or -1
	Arg   uint64 // chooses options and values
}

func (o Op) String() string { return fmt.Sprintf("%s/%d/%x", o.Name, o.Model, o.Arg) }

var modelOps = []string{"openapi", "openapi-print", "graphql", "graphql-print", "go", "go", "java", "java", "httptrace", "validate", "validate", "equivalent", "find", "enums", "pretty", "smithy", "smithy-ast", "smithy-text", "source"}
var fileOps = []string{"import-openapi", "import-swagger", "import-graphql", "import-smithy", "parse"}

func scalar(td *sadl.TypeDef) bool {
	switch td.Type {
	case "Bool", "Int32", "Int64", "Decimal", "String", "UUID", "Timestamp", "Enum":
		return true
	}
	return false
}

func plain(td *sadl.TypeDef) bool { return td.Type == "String" || td.Type == "UUID" }

func schema(rnd *mon.Rand, wide bool) (*sadl.Schema, *gen.G) {
	o := gen.Opts{Kinds: []string{"Struct", "Struct", "Struct", "Enum", "Enum", "String", "Array", "Union", "Timestamp", "UUID", "Int32"},
		FieldKinds: []string{"String", "Int32", "Int64", "Bool", "Float64", "Decimal", "Timestamp", "UUID", "Array"},
		Recursive:  true, NamedItems: true, Hostile: true, Comments: true, FieldComments: true, EnumComments: true, UniqueSymbols: true, Annotations: true, MinTypes: 4, MaxTypes: 9}
	h := gen.HttpOpts{Min: 1, Max: 4, Query: true, Headers: true, OutHeaders: true, Exceptions: true, DefaultExc: true, NoContent: true, DistinctPaths: true, UniqueStatus: true,
		ParamKinds: []string{"String", "Int32", "UUID", "Timestamp"}, NamedParams: plain,
		BodyTypes: func(td *sadl.TypeDef) bool { return td.Type == "Struct" || td.Type == "Array" }}
	if wide {
		o.Kinds = append(gen.AllKinds, "Struct", "Struct", "Struct")
		o.FieldKinds = nil
		o.Constraints, o.FieldCons, o.Sizes, o.InlineEnum, o.InlineStruct, o.InlineUnion, o.EmptyStruct, o.Defaults = true, true, true, true, true, true, true, true
		h.ParamKinds = append(h.ParamKinds, "Bool", "Decimal", "Int64")
		h.NamedParams, h.BodyTypes = scalar, func(td *sadl.TypeDef) bool { return true }
		h.Defaults = true
	}
	g := gen.New(rnd, o)
	s := g.Types()
	g.Http(h)
	s.Name, s.Namespace = rnd.Pick("crm", "shop", "web"), rnd.Pick("", "com.acme", "io.x.y")
	s.Version = rnd.Pick("", "1.0", "7")
	s.Base = rnd.Pick("", "", "/v1")
	s.Annotations = map[string]string{}
	for _, k := range []string{"x_server", "x_one", "x_two", "x_three"} {
		if rnd.Bool() {
			s.Annotations[k] = "v" + k
		}
	}
	v := &gox.Values{S: s, G: g, Runtime: true}
	for _, h := range s.Http {
		for _, n := range []string{"first", "second"} {
			if !rnd.P(70) {
				continue
			}
			req := map[string]interface{}{}
			for _, in := range h.Inputs {
				if in.Path || in.Required || rnd.P(60) {
					req[in.Name] = v.Value(&in.TypeSpec, 0)
				}
			}
			res := map[string]interface{}{}
			for _, in := range h.Expected.Outputs {
				res[in.Name] = v.Value(&in.TypeSpec, 0)
			}
			s.Examples = append(s.Examples, &sadl.ExampleDef{Target: sadl.Capitalize(h.Name) + "Request", Name: n, Example: req},
				&sadl.ExampleDef{Target: sadl.Capitalize(h.Name) + "Response", Name: n, Example: res})
		}
	}
	for _, td := range s.Types {
		if rnd.P(20) && td.Type != "Any" && td.Type != "UnitValue" {
			s.Examples = append(s.Examples, &sadl.ExampleDef{Target: td.Name, Example: v.Value(&sadl.TypeSpec{Type: td.Name}, 0)})
		}
	}
	if len(s.Http) > 0 && rnd.P(8) { // nothing is said about the response
		s.Http[rnd.Intn(len(s.Http))].Expected = nil
	}
	return s, g
}

// GraphQL is a random GraphQL schema.
func GraphQL(g *gen.G) string {
	var parts, names []string
	for k, n := 0, g.Range(2, 6); k < n; k++ {
		names = append(names, g.TypeName())
	}
	for i, n := range names {
		switch {
		case i == 0 || g.P(60):
			t := "type " + n + " {\n"
			used := map[string]bool{}
			for k, m := 0, g.Range(1, 6); k < m; k++ {
				t += "  " + g.FieldName(used) + ": " + g.Pick("Int", "String!", "[ID]", "Float", names[0], "["+names[0]+"!]!") + "\n"
			}
			parts = append(parts, t+"}\n")
		case g.Bool():
			t := "enum " + n + " {\n"
			for k, m := 0, g.Range(1, 5); k < m; k++ {
				t += fmt.Sprintf("  S_%d\n", k)
			}
			parts = append(parts, t+"}\n")
		default:
			parts = append(parts, "union "+n+" = "+names[0]+"\n")
		}
	}
	return strings.Join(parts, "\n")
}

// New makes the world of a seed.
func New(seed uint64) *World {
	w := &World{Seed: seed, files: map[string]string{}}
	rnd := mon.NewRand(seed)
	for i := 0; i < 2; i++ {
		s, g := schema(rnd, i == 1)
		w.schemas = append(w.schemas, mon.JSON(s))
		m, err := sadl.NewModel(s)
		if err != nil {
			mon.Bug("NewModel: %v", err)
		}
		w.Models = append(w.Models, m)
		w.gens = append(w.gens, g)
	}
	d3 := &oas.DocGen{Rand: rnd}
	doc, _ := d3.Doc("spec")
	w.files["import-openapi"] = mon.JSON(doc)
	d2 := &oas.DocGen{Rand: rnd, V2: true}
	doc, _ = d2.Doc("spec")
	w.files["import-swagger"] = mon.JSON(doc)
	w.files["import-graphql"] = GraphQL(gen.New(rnd, gen.Opts{}))
	ds := &smi.DocGen{Rand: rnd}
	ds.Doc()
	w.files["import-smithy"] = ds.Text(ds.Shapes, true)
	_, s := src.Schema(rnd)
	w.files["parse"], _ = src.Write(rnd, s, true)
	return w
}

// Copy gives the same world with models of its own.
func (w *World) Copy() *World { return New(w.Seed) }

// Ops draws n conversions.
func (w *World) Ops(g *mon.Rand, n int) []Op {
	var l []Op
	for i := 0; i < n; i++ {
		if g.P(20) {
			l = append(l, Op{g.PickS(fileOps), -1, uint64(g.Intn(2))})
		} else {
			l = append(l, Op{g.PickS(modelOps), g.Intn(2), uint64(g.Intn(4))})
		}
	}
	return l
}

// State is everything the conversions must leave alone.
func (w *World) State() string {
	t := ""
	for _, m := range w.Models {
		t += mon.JSON(&m.Schema) + "\n"
	}
	return t
}

// Tree is the content of a directory.
func Tree(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		b, _ := os.ReadFile(p)
		rel, _ := filepath.Rel(dir, p)
		l = append(l, "== "+rel+"\n"+string(b))
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

var date = regexp.MustCompile(`(?m)^(< )?Date: .*$`)

func (w *World) conf(o Op) *sadl.Data {
	g := mon.NewRand(o.Arg*7919 + w.Seed)
	c := sadl.NewData()
	opt := func(names ...string) {
		for _, n := range names {
			switch g.Intn(3) {
			case 0:
				c.Put(n, true)
			case 1:
				c.Put(n, false)
			}
		}
	}
	switch o.Name {
	case "go":
		opt("server", "client", "runtime")
	case "java":
		opt("server", "client", "immutable", "instants", "maven", "json", "service-exception", "example-implementation")
		if g.Bool() {
			c.Put("header", "// header\n")
		}
	case "smithy-ast", "smithy-text":
		opt("useInputOutput")
		if g.Bool() {
			c.Put("namespace", "given.ns")
		}
	case "import-smithy", "parse":
		if g.Bool() {
			c.Put("namespace", "given.ns")
		}
	case "graphql", "graphql-print":
		if g.Bool() {
			c.Put("custom-scalars", map[string]interface{}{"Int64": "Long", "UUID": "Uuid", "Timestamp": "Time", "Decimal": "Dec"})
		}
	}
	if g.P(30) {
		c.Put("name", g.Pick("other", "Thing"))
	}
	return c
}

// Result of a conversion: what it returned, printed or wrote.
type Result struct {
	Out string
	Err string
}

// Same compares results; the text of an error is not compared, as any of several errors may be reported.
func Same(a, b Result) bool {
	if a.Err != "" || b.Err != "" {
		return a.Err != "" && b.Err != ""
	}
	return a.Out == b.Out
}

// Do executes a conversion; what it writes goes to dir, which is created and removed again. With print false, nothing may be captured.
func (w *World) Do(o Op, dir string, print bool) (res Result) {
	defer func() {
		if p := recover(); p != nil {
			if b, ok := p.(error); ok && strings.HasPrefix(b.Error(), "HARNESS") {
				panic(p)
			}
			res = Result{Out: fmt.Sprintf("panic: %v", p)}
		}
	}()
	if err := os.MkdirAll(dir, 0755); err != nil {
		mon.Bug("%v", err)
	}
	defer os.RemoveAll(dir)
	fail := func(err error) Result {
		if err == nil {
			mon.Bug("no error")
		}
		return Result{Err: "error: " + err.Error()}
	}
	capture := func(f func() error) Result {
		var err error
		if !print {
			if err = f(); err != nil {
				return fail(err)
			}
			return Result{}
		}
		t := mon.Capture(func() { err = f() })
		if err != nil {
			return fail(err)
		}
		return Result{Out: t}
	}
	var m *sadl.Model
	if o.Model >= 0 {
		m = w.Models[o.Model]
	}
	conf := w.conf(o)
	switch o.Name {
	case "openapi":
		doc, err := openapi.NewGenerator(m, conf).ExportToOAS3()
		if err != nil {
			return fail(err)
		}
		return Result{Out: sadl.Pretty(doc)}
	case "openapi-print":
		return capture(func() error { return openapi.Export(m, conf) })
	case "graphql":
		t, err := graphql.FromSadl(m, conf)
		if err != nil {
			return fail(err)
		}
		return Result{Out: t}
	case "graphql-print":
		return capture(func() error { return graphql.Export(m, conf) })
	case "go":
		if err := golang.Export(m, dir, conf); err != nil {
			return fail(err)
		}
		return Result{Out: Tree(dir)}
	case "java":
		if err := java.Export(m, dir, conf); err != nil {
			return fail(err)
		}
		return Result{Out: Tree(dir)}
	case "httptrace":
		r := capture(func() error { return httptrace.Export(m, conf) })
		r.Out = date.ReplaceAllString(r.Out, "${1}Date: now")
		return r
	case "validate":
		t := ""
		g := *w.gens[o.Model]
		g.Rand = mon.NewRand(o.Arg*31 + w.Seed)
		for _, td := range m.Types {
			for k := 0; k < 4; k++ {
				v := g.Value(&sadl.TypeSpec{Type: td.Name}, k*15, 0)
				t += fmt.Sprint(m.Validate("x", td.Name, v) == nil, " ")
			}
		}
		return Result{Out: t}
	case "equivalent":
		t := ""
		for _, a := range m.Types {
			for _, b := range m.Types {
				t += fmt.Sprint(m.EquivalentTypes(&a.TypeSpec, &b.TypeSpec), m.EquivalentTypesByName(a.Name, b.Name), " ")
			}
		}
		return Result{Out: t}
	case "find":
		t := ""
		for _, n := range append([]string{"Nope", "String"}, names(m)...) {
			t += mon.JSON(m.FindType(n)) + mon.JSON(m.FindHttp(n))
		}
		for _, ex := range m.Examples {
			ts, err := m.FindExampleType(ex)
			t += mon.JSON(ts) + fmt.Sprint(err == nil)
		}
		return Result{Out: t}
	case "enums": // changes its model by design: works on its own
		var s sadl.Schema
		if err := json.Unmarshal([]byte(w.schemas[o.Model]), &s); err != nil {
			mon.Bug("%v", err)
		}
		own, err := sadl.NewModel(&s)
		if err != nil {
			return fail(err)
		}
		if err := own.ConvertInlineEnums(); err != nil {
			return fail(err)
		}
		return Result{Out: sadl.Pretty(own)}
	case "smithy":
		ast, err := smithy.FromSADL(m, "x.y")
		if err != nil {
			return fail(err)
		}
		return Result{Out: sadl.Pretty(ast)}
	case "smithy-ast", "smithy-text":
		return capture(func() error { return smithy.Export(m, dir, conf, o.Name == "smithy-ast") })
	case "source":
		return Result{Out: sadl.DecompileSadl(m)}
	case "parse":
		got, err := sadl.ParseSadlString(w.files[o.Name], conf)
		if err != nil {
			return fail(err)
		}
		return Result{Out: sadl.Pretty(got)}
	case "pretty":
		return Result{Out: sadl.Pretty(m)}
	case "import-openapi", "import-swagger", "import-graphql", "import-smithy":
		f := filepath.Join(dir, "spec.json")
		if o.Name == "import-graphql" {
			f = filepath.Join(dir, "spec.graphql")
		}
		if err := os.WriteFile(f, []byte(w.files[o.Name]), 0644); err != nil {
			mon.Bug("%v", err)
		}
		var got *sadl.Model
		var err error
		switch o.Name {
		case "import-openapi":
			got, err = openapi.Import([]string{f}, conf)
		case "import-swagger":
			got, err = openapi.ImportSwagger([]string{f}, conf)
		case "import-smithy":
			got, err = smithy.Import([]string{f}, conf)
		default:
			got, err = graphql.Import([]string{f}, conf)
		}
		if err != nil {
			return fail(err)
		}
		return Result{Out: sadl.Pretty(got)}
	}
	mon.Bug("op %s", o.Name)
	return
}

func names(m *sadl.Model) []string {
	var l []string
	for _, td := range m.Types {
		l = append(l, td.Name)
	}
	for _, h := range m.Http {
		l = append(l, h.Name)
	}
	return l
}
