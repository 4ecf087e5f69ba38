// C14: the generated Go model compiles, declares exactly the model's types, and its JSON is the model's.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"

	"verif/gen"
	"verif/gox"
	"verif/mon"
)

func main() {
	mon.Main(mon.Spec{Prop: "C14", Quick: 2,
		Rule:        "random models (all type kinds, http actions) generated to Go in random packages, with and without the runtime; (1) every package is parsed and type-checked and its declarations compared with those computed from the model; (2) batches of packages are compiled and run: JSON values of every type are decoded and encoded again and compared, malformed ones must be rejected, helper functions are called; models with an unsupported type must be refused; non-trivial = distinct model",
		Assumptions: []string{"names are distinct in Go (after capitalisation, and enum symbols over the model) and are no Go keywords or helper names", "optional fields with a zero value may be omitted"},
		MinEvents:   map[string]int{"package checked": 800, "declaration": 4000, "package run": 60, "value": 1500, "rejected value": 300, "enum key": 10, "refused": 300, "from string": 50}},
		func(r *mon.Run) {
			c := gox.NewChecker()
			r.Cases("api", r.Scale(2400, 20000), func(i int, g *mon.Rand) { api(r, c, g, i) })
			r.Cases("run", r.Scale(24, 160), func(i int, g *mon.Rand) { batch(r, g, i) })
		})
}

var kinds = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Array", "Map", "Struct", "Struct", "Struct", "Enum", "Enum", "Union", "Any"}
var fields = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any", "Array", "Map"}

type pkg struct {
	s       *sadl.Schema
	m       *sadl.Model
	conf    *sadl.Data
	name    string // service
	path    string // relative directory
	pkg     string
	runtime bool
	g       *gen.G
}

func model(rnd *mon.Rand, pkgName string) *pkg {
	p := &pkg{runtime: rnd.P(25)}
	f := fields
	if p.runtime {
		f = append([]string{"UnitValue"}, fields...)
	}
	g := gen.New(rnd, gen.Opts{Kinds: kinds, FieldKinds: f, Constraints: true, FieldCons: true, Sizes: true, Recursive: true, NamedItems: true, MapKeyNamed: true,
		Hostile: true, Comments: true, FieldComments: true, EnumComments: true, Annotations: true, EmptyStruct: true, UniqueSymbols: true, MinTypes: 1, MaxTypes: 9})
	s := g.Types()
	g.Http(gen.HttpOpts{Min: 0, Max: 4, Query: true, Headers: true, OutHeaders: true, Exceptions: true, NoContent: true,
		ParamKinds: []string{"String", "Int8", "Int32", "Int64", "Bool", "Float64", "Decimal", "UUID", "Timestamp"}, NamedParams: func(td *sadl.TypeDef) bool { return true },
		BodyTypes: func(td *sadl.TypeDef) bool { return true }, BodyKinds: []string{"String", "Any", "Int32"}})
	n := 0
	for _, td := range s.Types {
		if td.Type == "Enum" && g.P(50) {
			s.Types = append(s.Types, &sadl.TypeDef{Name: "By" + td.Name, TypeSpec: sadl.TypeSpec{Type: "Map", Keys: td.Name, Items: g.Pick("Int32", "String", td.Name)}})
		}
		for _, el := range td.Elements {
			if g.P(25) {
				n++
				if el.Annotations == nil {
					el.Annotations = map[string]string{}
				}
				el.Annotations["x_enumValue"] = fmt.Sprintf("%s-%d", g.Pick("val", "a b", "x.y", "q\"q", "back\\slash", "\u00e9"), n)
			}
		}
	}
	p.s, p.g = s, g
	p.conf = sadl.NewData()
	p.name = sadl.Capitalize(s.Name)
	if g.P(25) {
		p.name = "My" + "Service"
		p.conf.Put("name", g.Pick("MyService", "myService"))
	}
	if pkgName != "" {
		p.conf.Put("package", pkgName)
		p.path, p.pkg = pkgName, pkgName
	} else {
		switch g.Intn(4) {
		case 0:
			p.conf.Put("package", "foo")
			p.path, p.pkg = "foo", "foo"
		case 1:
			name := g.Pick("com.foo.bar", "com.foo.bar", "a.b", "org.acme.shop.orders.v1.model")
			p.conf.Put("package", name)
			p.path, p.pkg = strings.Replace(name, ".", "/", -1), name[strings.LastIndex(name, ".")+1:]
		case 2:
			s.Namespace = ""
			p.path, p.pkg = "main", "main"
		case 3:
			l := strings.Split(s.Namespace, ".")
			p.path, p.pkg = strings.Join(l, "/"), l[len(l)-1]
		}
	}
	if p.runtime || g.P(20) {
		p.conf.Put("runtime", p.runtime)
	}
	m, err := sadl.NewModel(s)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	p.m = m
	return p
}

func (p *pkg) file() string {
	return filepath.Join(p.path, strings.ToLower(p.name[:1])+p.name[1:]+"_model.go")
}

func tree(dir string) []string {
	var l []string
	filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			rel, _ := filepath.Rel(dir, path)
			l = append(l, rel)
		}
		return nil
	})
	sort.Strings(l)
	return l
}

// export runs the generator and returns the one file it must have written.
func (p *pkg) export(r *mon.Run, dir string) (string, bool) {
	before := mon.JSON(p.m.Schema)
	r.Note(before + p.conf.String())
	var err error
	out := mon.Capture(func() { err = golang.Export(p.m, dir, p.conf) })
	if err != nil {
		r.Failf("refused", "the generator refused the model: %v\n%s%s", err, out, before)
		return "", false
	}
	if after := mon.JSON(p.m.Schema); after != before {
		r.Failf("mutated", "generating changed the model\n%s\n%s", before, after)
	}
	b, err := os.ReadFile(filepath.Join(dir, p.file()))
	if err != nil {
		r.Failf("file", "no file %s but %v\nconfig %s", p.file(), tree(dir), p.conf)
		return "", false
	}
	return string(b), true
}

func api(r *mon.Run, c *gox.Checker, rnd *mon.Rand, i int) {
	p := model(rnd, "")
	dir := filepath.Join(r.Scratch(), "api")
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	r.Observe(mon.JSON(p.s)+p.conf.String(), len(p.s.Types) > 1)
	text, ok := p.export(r, dir)
	if !ok {
		return
	}
	if l := tree(dir); len(l) != 1 {
		r.Failf("files", "files %v", l)
	}
	tp, _, err := c.Check(map[string]string{p.file(): text})
	if err != nil {
		r.Failf("compile", "the generated package %v\n%s\nmodel %s", err, text, mon.JSON(p.s))
		return
	}
	r.Event("package checked")
	r.EventN("declaration", len(p.s.Types)+2*len(p.s.Http))
	if tp.Name() != p.pkg {
		r.Failf("package", "package %s, want %s\n%s", tp.Name(), p.pkg, p.conf)
	}
	a := &gox.GoAPI{V: &gox.Values{S: p.s, G: p.g}, Runtime: p.runtime, Service: p.name}
	if d := a.Compare(tp); len(d) > 0 {
		r.Failf("declarations", "%s\n%s\nmodel %s", strings.Join(d, "\n"), text, mon.JSON(p.s))
	}
	if i%4 == 0 {
		dir2 := filepath.Join(r.Scratch(), "api2")
		os.RemoveAll(dir2)
		text2, ok := p.export(r, dir2)
		os.RemoveAll(dir2)
		if ok && text2 != text {
			r.Failf("unstable", "generating again gives something else\n%s\n%s", text, text2)
		}
	}
	refuse(r, p)
}

func refuse(r *mon.Run, p *pkg) {
	g := p.g
	s := *p.s
	ts := sadl.TypeSpec{}
	what := g.Pick("UnitValue", "Enum", "Struct", "Union", "named UnitValue")
	switch what {
	case "UnitValue":
		ts = sadl.TypeSpec{Type: "UnitValue", Value: "Decimal", Unit: "String"}
	case "named UnitValue":
		ts = sadl.TypeSpec{Type: "UnitValue", Value: "Decimal", Unit: "String"}
	case "Enum":
		ts = sadl.TypeSpec{Type: "Enum", Elements: []*sadl.EnumElementDef{{Symbol: "ODD_A"}}}
	case "Union":
		ts = sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "a", TypeSpec: sadl.TypeSpec{Type: "String"}}}}
	case "Struct":
		ts = sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{{Name: "a", TypeSpec: sadl.TypeSpec{Type: "String"}}}}
	}
	td := &sadl.TypeDef{Name: "OddStruct", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{{Name: "b", TypeSpec: sadl.TypeSpec{Type: "String"}}, {Name: "a", TypeSpec: ts}}}}
	if what == "named UnitValue" {
		td = &sadl.TypeDef{Name: "OddUnit", TypeSpec: ts}
	}
	s.Types = append(append([]*sadl.TypeDef{}, p.s.Types...), td)
	if g.Bool() {
		s.Types = append([]*sadl.TypeDef{td}, p.s.Types...)
	}
	m, err := sadl.NewModel(&s)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	conf := sadl.NewData()
	dir := filepath.Join(r.Scratch(), "refuse")
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	r.Note(what + mon.JSON(&s))
	mon.Capture(func() { err = golang.Export(m, dir, conf) })
	if err == nil {
		r.Failf("not-refused", "a field or type of %s was generated without an error", what)
	} else if l := tree(dir); len(l) != 0 {
		r.Failf("not-refused", "%s: refused with %v but wrote %v", what, err, l)
	}
	r.Event("refused")
}

type vector struct {
	Pkg, Type string
	In        string
}

type answer struct {
	Out, Val, Err string
}

type probe struct {
	vector
	ts   *sadl.TypeSpec
	p    *pkg
	bad  bool
	want string // for helper functions
}

func batch(r *mon.Run, rnd *mon.Rand, i int) {
	m := gox.NewModule(filepath.Join(r.Scratch(), "mod"))
	defer os.RemoveAll(m.Dir)
	main := "package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n"
	table := ""
	var probes []*probe
	n := 0
	for k := 0; k < 14; k++ {
		name := fmt.Sprintf("pk%d", k)
		p := model(mon.NewRand(rnd.U64()), name)
		text, ok := p.export(r, m.Dir)
		if !ok {
			continue
		}
		n++
		r.Observe(mon.JSON(p.s), true)
		main += fmt.Sprintf("\t%q\n", "gen/"+name)
		table += fmt.Sprintf("\t%q: %s.Probe,\n", name, name)
		src, ps := probeFile(r, p, name, text)
		m.Write(name+"/probe.go", src)
		probes = append(probes, ps...)
	}
	main += ")\n\nvar table = map[string]map[string]func(string) (string, string, string){\n" + table + `}

type vector struct{ Pkg, Type, In string }
type answer struct{ Out, Val, Err string }

func main() {
	var vs []vector
	if err := json.NewDecoder(os.Stdin).Decode(&vs); err != nil {
		panic(err)
	}
	var as []answer
	for _, v := range vs {
		var a answer
		a.Out, a.Val, a.Err = table[v.Pkg][v.Type](v.In)
		as = append(as, a)
	}
	json.NewEncoder(os.Stdout).Encode(as)
}
`
	m.Write("main.go", main)
	bin := filepath.Join(m.Dir, "bin.out")
	if err := m.Build(".", bin); err != nil {
		r.Failf("build", "generated packages do not build: %v", err)
		return
	}
	var vs []vector
	for _, p := range probes {
		vs = append(vs, p.vector)
	}
	var as []answer
	if err := m.Exec(bin, vs, &as); err != nil || len(as) != len(vs) {
		r.Failf("crash", "the program using the generated packages failed: %v", err)
		return
	}
	r.EventN("package run", n)
	for k, p := range probes {
		judge(r, p, as[k])
	}
}

func dec(s string) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	err := d.Decode(&v)
	return v, err
}

func judge(r *mon.Run, p *probe, a answer) {
	if p.want != "" {
		r.Event("from string")
		if a.Err != "" || a.Out != p.want {
			r.Failf("helper", "%s(%q) gives %q %s, want %q", p.Type, p.In, a.Out, a.Err, p.want)
		}
		return
	}
	if p.bad {
		r.Event("rejected value")
		if a.Err == "" {
			r.Failf("accepted", "%s was decoded as a %s (%s) giving %s\n%s", p.In, p.Type, mon.JSON(p.ts), a.Out, mon.JSON(p.p.s))
		}
		return
	}
	r.Event("value")
	if a.Err != "" {
		r.Failf("rejected", "%s was not accepted as %s (%s): %s\n%s", p.In, p.Type, mon.JSON(p.ts), a.Err, mon.JSON(p.p.s))
		return
	}
	v := &gox.Values{S: p.p.s, G: p.p.g}
	in, err := dec(p.In)
	if err != nil {
		mon.Bug("%v", err)
	}
	want := v.Canon(p.ts, in)
	for _, o := range []string{a.Out, a.Val} {
		out, err := dec(o)
		if err != nil {
			r.Failf("output", "%s encodes as %q: %v", p.Type, o, err)
			return
		}
		if got := v.Canon(p.ts, out); got != want {
			r.Failf("round-trip", "%s %s comes back as %s\n(%s instead of %s)\nmodel %s", p.Type, p.In, o, got, want, mon.JSON(p.p.s))
			return
		}
	}
}

func probeFile(r *mon.Run, p *pkg, name, text string) (string, []*probe) {
	v := &gox.Values{S: p.s, G: p.g, Runtime: p.runtime}
	var ps []*probe
	src := "package " + name + "\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n"
	body := "\nvar _ = fmt.Sprint\n\nvar Probe = map[string]func(string) (string, string, string){\n"
	one := func(tn string, ts *sadl.TypeSpec) {
		body += fmt.Sprintf("\t%q: func(s string) (string, string, string) {\n\t\tvar v %s\n\t\tif err := json.Unmarshal([]byte(s), &v); err != nil {\n\t\t\treturn \"\", \"\", \"error: \" + err.Error()\n\t\t}\n\t\tb, err := json.Marshal(&v)\n\t\tif err != nil {\n\t\t\treturn \"\", \"\", \"error: \" + err.Error()\n\t\t}\n\t\tb2, err := json.Marshal(v)\n\t\tif err != nil {\n\t\t\treturn \"\", \"\", \"error: \" + err.Error()\n\t\t}\n\t\treturn string(b), string(b2), \"\"\n\t},\n", tn, tn)
		if t := v.Resolve(ts).Type; t == "Decimal" || t == "Timestamp" {
			// encoded through a pointer in fields
			body = strings.Replace(body, "b2, err := json.Marshal(v)", "b2, err := json.Marshal(&v)", -1)
		}
		for k := 0; k < 3; k++ {
			ps = append(ps, &probe{vector: vector{name, tn, mon.JSON(v.Value(ts, 0))}, ts: ts, p: p})
		}
		if b := v.Bad(ts); b != nil {
			ps = append(ps, &probe{vector: vector{name, tn, mon.JSON(b)}, ts: ts, p: p, bad: true})
		}
		// a struct with one bad field
		t := v.Resolve(ts)
		if t.Type == "Struct" && len(t.Fields) > 0 {
			f := t.Fields[p.g.Intn(len(t.Fields))]
			if b := v.Bad(&f.TypeSpec); b != nil {
				val := v.Value(ts, 0).(map[string]interface{})
				val[f.Name] = b
				ps = append(ps, &probe{vector: vector{name, tn, mon.JSON(val)}, ts: ts, p: p, bad: true})
			}
		}
	}
	fn := func(tn, call, in, want string) {
		body += fmt.Sprintf("\t%q: func(s string) (string, string, string) {\n\t\treturn fmt.Sprint(%s), \"\", \"\"\n\t},\n", tn, call)
		ps = append(ps, &probe{vector: vector{name, tn, in}, want: want, p: p})
	}
	times := false
	for _, td := range p.s.Types {
		one(td.Name, &sadl.TypeSpec{Type: td.Name})
		if td.Type == "Map" && v.Named(td.Keys).Type == "Enum" {
			r.Event("enum key")
		}
		switch td.Type {
		case "Int8", "Int16", "Int32", "Int64":
			max := map[string]string{"Int8": "127", "Int16": "-32768", "Int32": "2147483647", "Int64": "-9223372036854775808"}[td.Type]
			in := p.g.Pick(max, "7", "-5", "010", "x", "", "1.5", "99999999999999999999")
			want := in
			if in == "010" {
				want = "10"
			} else if in == "x" || in == "" || in == "1.5" || len(in) == 20 && in[0] == '9' {
				want = "0"
			}
			fn(td.Name+"FromString", td.Name+"FromString(s)", in, want)
		case "Float32", "Float64":
			in := p.g.Pick("1.5", "-0.25", "3", "x", "")
			want := in
			if in == "x" || in == "" {
				want = "0"
			}
			fn(td.Name+"FromString", td.Name+"FromString(s)", in, want)
		case "Enum":
			el := td.Elements[p.g.Intn(len(td.Elements))]
			fn(td.Name+"Symbol", el.Symbol+".String()", "", gox.EnumText(el))
			if el := td.Elements[len(td.Elements)-1]; len(td.Elements) > 1 {
				fn(td.Name+"Last", el.Symbol+".String()", "", gox.EnumText(el))
			}
		}
	}
	for _, h := range p.s.Http {
		var in, out []*sadl.StructFieldDef
		for _, x := range h.Inputs {
			in = append(in, &x.StructFieldDef)
		}
		for _, x := range h.Expected.Outputs {
			out = append(out, &x.StructFieldDef)
		}
		one(gox.Cap(h.Name)+"Request", &sadl.TypeSpec{Type: "Struct", Fields: in})
		one(gox.Cap(h.Name)+"Response", &sadl.TypeSpec{Type: "Struct", Fields: out})
		for _, e := range h.Exceptions {
			fn(e.Type+"Error"+h.Name, "error(&"+e.Type+"{})", "", "")
			ps = ps[:len(ps)-1]
		}
	}
	if strings.Contains(text, "type Timestamp struct") {
		times = true
		fn("TimestampZone", `Timestamp{time.Date(2020, 1, 1, 1, 30, 0, 7000000, time.FixedZone("x", 2*3600))}.String()`, "", "2019-12-31T23:30:00.007Z")
		fn("TimestampHeader", `TimestampFromString(s)`, "Mon, 03 Feb 2020 04:05:06 GMT", "2020-02-03T04:05:06.000Z")
		fn("TimestampOffset", `TimestampFromString(s)`, p.g.Pick("2020-02-03T04:05:06.789+00:00", "2020-02-03T04:05:06.789-0000"), "2020-02-03T04:05:06.789Z")
		fn("TimestampBad", `TimestampFromString(s) == nil`, p.g.Pick("2020-02-30T04:05:06.789Z", "x", "", "2020-02-03T4:05:06.789Z", "2020-02-03T04:05:06,789Z", "2020-02-03T4:05:06+00:00", "2020-02-03T04:05:06.789+00:30"), "true")
	}
	if strings.Contains(text, "type Decimal struct") {
		fn("DecimalText", `DecimalFromString(s).AsBigFloat().Text('f', -1)`, "123456789012345678901234567890.125", "123456789012345678901234567890.125")
		fn("DecimalDigits", `DecimalFromString(s).AsBigFloat().Text('f', 20)`, "12345678901234567890123456789012345678901234567890.12345678901234567890", "12345678901234567890123456789012345678901234567890.12345678901234567890")
		fn("DecimalString", `DecimalFromString(s)`, "-12.75", "-12.75")
		fn("DecimalBad", `DecimalFromString(s) == nil`, p.g.Pick("abc", "", "1.2.3"), "true")
		fn("DecimalInt", `DecimalFromString(s).AsInt64()`, "9007199254740993", "9007199254740993")
		fn("DecimalInt32", `DecimalFromString(s).AsInt32()`, "-2147483648", "-2147483648")
		fn("DecimalFloat", `DecimalFromString(s).AsFloat64()`, "0.1", "0.1")
	}
	if times {
		src += "\t\"time\"\n"
	}
	return src + ")\n" + body + "}\n", ps
}
