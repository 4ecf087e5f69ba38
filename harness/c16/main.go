// C16: the generated Java model compiles, declares exactly the model's types, and its JSON is the model's.
package main

import (
	"encoding/xml"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/java"

	"verif/gox"
	"verif/jx"
	"verif/mon"
)

func main() {
	mon.Main(mon.Spec{Prop: "C16", Quick: 2, Env: []string{"DOMAIN=host.example.org"},
		Rule:        "random models (all type kinds, inline types, http actions) generated to Java with random options; every project is compiled by javac against stand-ins of Jackson, Bean Validation and JAX-RS; the loaded classes are compared with the declarations computed from the model; JSON values of every class are read and written again by a mapper that follows the generated annotations, copied through builders or setters, and compared, malformed ones must be rejected; models with an unsupported type must be refused; non-trivial = distinct model with classes",
		Assumptions: []string{"Jackson, Bean Validation and JAX-RS are stand-ins that implement their rules as far as generated code relies on them", "optional fields with an empty value may be omitted", "the lombok option is not observed (it needs an annotation processor)"},
		MinEvents:   map[string]int{"project": 200, "class": 1500, "value": 2000, "copy": 1000, "rejected value": 500, "union": 50, "unit value": 30, "exception": 30, "enum": 100, "refused": 60}},
		func(r *mon.Run) {
			var j *jx.JVM
			r.Cases("model", r.Scale(480, 6000), func(i int, g *mon.Rand) {
				if j == nil {
					j = jx.Start()
				}
				one(r, j, g, i)
			})
			r.Cases("refuse", r.Scale(160, 1600), func(i int, g *mon.Rand) { refuse(r, g) })
			if j != nil {
				j.Stop()
			}
		})
}

type probe struct {
	class string
	ts    *sadl.TypeSpec
	in    string
	bad   bool
	fn    string // static function
}

func one(r *mon.Run, j *jx.JVM, rnd *mon.Rand, i int) {
	p := jx.Model(rnd, false)
	g := p.G
	dir := filepath.Join(r.Scratch(), "p")
	defer os.RemoveAll(dir)
	maven := g.P(20)
	if maven {
		p.Conf.Put("maven", true)
	}
	r.Observe(mon.JSON(p.S)+p.Conf.String(), len(p.S.Types) > 1)
	if !p.Export(r, dir) {
		return
	}
	defer func() {
		if r.Failures() > 0 {
			return
		}
	}()
	text := jx.Sources(dir)
	if i%4 == 0 {
		dir2 := filepath.Join(r.Scratch(), "q")
		ok := p.Export(r, dir2)
		text2 := jx.Sources(dir2)
		os.RemoveAll(dir2)
		if ok && text2 != text {
			r.Failf("unstable", "generating again gives something else\n%s\n%s", text, text2)
		}
	}
	// files
	want := map[string]bool{p.Path(p.Model, p.Service): true}
	optional := map[string]bool{p.Path(p.Model, "Util"): true, p.Path(p.Model, "Timestamp"): !p.Instants}
	if p.ServiceExc {
		want[p.Path(p.Model, "ServiceException")] = true
	}
	if maven {
		want["pom.xml"] = true
	}
	for _, td := range p.S.Types {
		switch td.Type {
		case "Struct", "Enum", "Union", "UnitValue":
			want[p.Path(p.Model, gox.Cap(td.Name))] = true
		}
	}
	for _, h := range p.S.Http {
		want[p.Path(p.Model, gox.Cap(h.Name)+"Request")] = true
		want[p.Path(p.Model, gox.Cap(h.Name)+"Response")] = true
	}
	for _, f := range jx.Tree(dir) {
		if !want[f] && !optional[f] {
			r.Failf("files", "unexpected file %s\n%s", f, p.Conf)
		}
		delete(want, f)
		b, _ := os.ReadFile(filepath.Join(dir, f))
		if f == "pom.xml" {
			for _, l := range []string{"<groupId>" + p.Domain + "</groupId>", "<artifactId>" + p.Service + "</artifactId>"} {
				if !strings.Contains(string(b), l) {
					r.Failf("pom", "no %s in\n%s\n%s", l, b, p.Conf)
				}
			}
			if err := pom(b, p); err != "" {
				r.Failf("pom", "%s\n%s\n%s", err, b, p.Conf)
			}
			r.Event("pom")
		} else if !strings.HasPrefix(string(b), p.Header) {
			r.Failf("header", "%s does not start with %q\n%s", f, p.Header, b)
		}
	}
	for f := range want {
		r.Failf("files", "no file %s but %v\n%s", f, jx.Tree(dir), p.Conf)
	}
	comments(r, p, dir)
	probes, ops := operations(p)
	a := j.Job(filepath.Join(dir, p.Source), true, ops)
	if a.Error != "" {
		r.Failf("compile", "the generated code does not compile:\n%s\n%s\n%s\nmodel %s", a.Error, p.Conf, text, mon.JSON(p.S))
		return
	}
	r.Event("project")
	r.EventN("class", len(a.Classes))
	extra := map[string]bool{p.Model + ".Util": true, p.Model + ".Timestamp": true, p.Model + ".ServiceException": true}
	if d := p.Compare(a.Classes, extra); len(d) > 0 {
		r.Failf("declarations", "%s\n%s\n%s\nmodel %s", strings.Join(d, "\n"), p.Conf, text, mon.JSON(p.S))
		return
	}
	for k, x := range a.Results {
		judge(r, p, probes[k], x, text)
	}
}

func operations(p *jx.Proj) ([]*probe, []jx.Op) {
	var ps []*probe
	var ops []jx.Op
	g := p.G
	add := func(pr *probe, op jx.Op) {
		op["class"], op["in"] = pr.class, pr.in
		ps, ops = append(ps, pr), append(ops, op)
	}
	class := func(c string, ts *sadl.TypeSpec) {
		op := func() jx.Op {
			o := jx.Op{"op": "json"}
			switch ts.Type {
			case "Struct":
				o["fluid"] = !p.Immutable
				o["text"] = p.Pretty
			case "Union":
				o["variant"] = true
				o["text"] = p.Pretty
			default:
				o["text"] = true
			}
			return o
		}
		for k := 0; k < 3; k++ {
			add(&probe{class: c, ts: ts, in: mon.JSON(p.Value(ts, 0))}, op())
		}
		add(&probe{class: c, ts: ts, in: mon.JSON(p.Bad(ts)), bad: true}, op())
		switch ts.Type {
		case "Struct":
			v := p.Value(ts, 0).(map[string]interface{})
			if len(ts.Fields) > 0 {
				f := ts.Fields[g.Intn(len(ts.Fields))]
				if b := p.Bad(&f.TypeSpec); b != nil {
					v[f.Name] = b
					add(&probe{class: c, ts: ts, in: mon.JSON(v), bad: true}, op())
				}
			}
		case "Union":
			f := ts.Variants[g.Intn(len(ts.Variants))]
			if b := p.Bad(&f.TypeSpec); b != nil {
				add(&probe{class: c, ts: ts, in: mon.JSON(map[string]interface{}{f.Name: b}), bad: true}, op())
			}
		case "Enum":
			add(&probe{class: c, ts: ts, in: gox.EnumText(ts.Elements[g.Intn(len(ts.Elements))]), fn: "fromString"}, jx.Op{"op": "static", "method": "fromString"})
			add(&probe{class: c, ts: ts, in: g.Pick("NOPE", "", "null"), fn: "fromString", bad: true}, jx.Op{"op": "static", "method": "fromString"})
		}
	}
	for _, td := range p.S.Types {
		switch td.Type {
		case "Struct", "Enum", "Union", "UnitValue":
			class(p.Model+"."+gox.Cap(td.Name), &td.TypeSpec)
		}
	}
	for _, h := range p.S.Http {
		class(p.Model+"."+gox.Cap(h.Name)+"Request", &sadl.TypeSpec{Type: "Struct", Fields: jx.Req(h)})
		class(p.Model+"."+gox.Cap(h.Name)+"Response", &sadl.TypeSpec{Type: "Struct", Fields: jx.Res(h)})
	}
	return ps, ops
}

func judge(r *mon.Run, p *jx.Proj, pr *probe, x map[string]interface{}, text string) {
	ctx := func() string {
		src := text
		name := pr.class[strings.LastIndex(pr.class, ".")+1:]
		for _, part := range strings.Split(text, "=== ") {
			if strings.Contains(part, "/"+name+".java\n") {
				src = part
			}
		}
		return fmt.Sprintf("\nconfig %s\n%s\nmodel %s", p.Conf, src, mon.JSON(p.S))
	}
	err := jx.Str(x["err"])
	if pr.bad {
		r.Event("rejected value")
		if err == "" {
			r.Failf("accepted", "%s was read as a %s (%s) giving %v%s", pr.in, pr.class, pr.ts.Type, x["out"], ctx())
		}
		return
	}
	r.Event("value")
	if err != "" {
		r.Failf("rejected", "%s was not accepted as %s: %s%s", pr.in, pr.class, err, ctx())
		return
	}
	if pr.fn != "" {
		if jx.Str(x["out"]) != pr.in {
			r.Failf("function", "%s.%s(%q) is %v", pr.class, pr.fn, pr.in, x["out"])
		}
		return
	}
	in, e := jx.Dec(pr.in)
	if e != nil {
		mon.Bug("%v", e)
	}
	want := p.Canon(pr.ts, in)
	cmp := func(what string) {
		s := jx.Str(x[what])
		out, e := jx.Dec(s)
		if e != nil {
			r.Failf("output", "%s %s of %s is %q: %v%s", pr.class, what, pr.in, s, e, ctx())
			return
		}
		if got := p.Canon(pr.ts, out); got != want {
			r.Failf("round-trip", "%s %s comes back (%s) as %s\n(%s instead of %s)%s", pr.class, pr.in, what, s, got, want, ctx())
		}
	}
	cmp("out")
	switch pr.ts.Type {
	case "Struct":
		r.Event("copy")
		cmp("copy")
		if p.Pretty {
			cmp("text")
		}
		exc := false
		for t, is := range p.Exceptions() {
			if is && pr.class == p.Model+"."+gox.Cap(t) {
				exc = true
				r.Event("exception")
			}
		}
		if (x["throwable"] == true) != exc {
			r.Failf("throwable", "%s: thrown by an action: %v, is an exception: %v", pr.class, exc, x["throwable"])
		}
	case "Union":
		r.Event("union")
		cmp("copy")
		if p.Pretty {
			cmp("text")
		}
		for k := range in.(map[string]interface{}) {
			if jx.Str(x["variant"]) != k {
				r.Failf("variant", "%s: the variant of %s is %v%s", pr.class, pr.in, x["variant"], ctx())
			}
		}
	case "Enum":
		r.Event("enum")
		if jx.Str(x["text"]) != in {
			r.Failf("text", "%s: the text of %s is %v%s", pr.class, pr.in, x["text"], ctx())
		}
	case "UnitValue":
		r.Event("unit value")
		if got := p.Canon(pr.ts, x["text"]); got != want {
			r.Failf("text", "%s: the text of %s is %v%s", pr.class, pr.in, x["text"], ctx())
		}
	}
}

func refuse(r *mon.Run, rnd *mon.Rand) {
	p := jx.Model(rnd, false)
	g := p.G
	s := *p.S
	what := g.Pick("keyword", "UnitValue", "Union", "self array", "self map", "keyword in inline struct")
	str := sadl.TypeSpec{Type: "String"}
	field := func(n string, ts sadl.TypeSpec) *sadl.StructFieldDef {
		return &sadl.StructFieldDef{Name: n, Required: g.Bool(), TypeSpec: ts}
	}
	td := &sadl.TypeDef{Name: "OddStruct", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{field("b", str)}}}
	kw := g.Pick("class", "int", "new", "default", "package", "public", "while", "final", "boolean", "switch", "this", "true", "null", "enum", "interface", "long", "return")
	add := func(f *sadl.StructFieldDef) {
		td.Fields = append(td.Fields, f)
		if g.Bool() {
			td.Fields[0], td.Fields[1] = td.Fields[1], td.Fields[0]
		}
	}
	tds := []*sadl.TypeDef{td}
	switch what {
	case "keyword":
		add(field(kw, str))
	case "UnitValue":
		add(field("a", sadl.TypeSpec{Type: "UnitValue", Value: "Decimal", Unit: "String"}))
	case "Union":
		add(field("a", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "x", TypeSpec: str}}}))
	case "self array":
		tds = append(tds, &sadl.TypeDef{Name: "Nest", TypeSpec: sadl.TypeSpec{Type: "Array", Items: "Nest"}})
		add(field("a", sadl.TypeSpec{Type: "Nest"}))
	case "self map":
		tds = append(tds, &sadl.TypeDef{Name: "Nest", TypeSpec: sadl.TypeSpec{Type: "Map", Keys: "String", Items: "Nest"}})
		add(field("a", sadl.TypeSpec{Type: "Nest"}))
	case "keyword in inline struct":
		add(field("a", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{field(kw, str)}}))
	}
	if g.Bool() {
		s.Types = append(append([]*sadl.TypeDef{}, p.S.Types...), tds...)
	} else {
		s.Types = append(tds, p.S.Types...)
	}
	m, err := sadl.NewModel(&s)
	if err != nil {
		mon.Bug("NewModel: %v", err)
	}
	dir := filepath.Join(r.Scratch(), "refuse")
	defer os.RemoveAll(dir)
	r.Note(what + mon.JSON(&s))
	r.Observe(what+mon.JSON(&s), true)
	mon.Capture(func() { err = java.Export(m, dir, p.Conf) })
	if err == nil {
		r.Failf("not-refused", "%s (%s) was generated without an error\n%s", what, kw, jx.Sources(dir))
	}
	r.Event("refused")
}

// pom checks that the maven project is one: well-formed, named after the model, with complete dependencies.
func pom(b []byte, p *jx.Proj) string {
	type dep struct {
		Group    string `xml:"groupId"`
		Artifact string `xml:"artifactId"`
		Version  string `xml:"version"`
	}
	var x struct {
		XMLName  xml.Name `xml:"project"`
		Model    string   `xml:"modelVersion"`
		Group    string   `xml:"groupId"`
		Artifact string   `xml:"artifactId"`
		Version  string   `xml:"version"`
		Managed  []dep    `xml:"dependencyManagement>dependencies>dependency"`
		Depends  []dep    `xml:"dependencies>dependency"`
		Plugins  []dep    `xml:"build>plugins>plugin"`
		Props    struct {
			All []struct {
				XMLName xml.Name
				Text    string `xml:",chardata"`
			} `xml:",any"`
		} `xml:"properties"`
	}
	if err := xml.Unmarshal(b, &x); err != nil {
		return "the project file is not well-formed: " + err.Error()
	}
	if x.Model != "4.0.0" || x.Group != p.Domain || x.Artifact != p.Service || x.Version == "" {
		return fmt.Sprintf("the project is %s %s:%s:%s", x.Model, x.Group, x.Artifact, x.Version)
	}
	need := map[string]bool{"jersey-container-jetty-http": true, "jersey-hk2": true, "jersey-media-json-jackson": true}
	managed := map[string]bool{}
	for _, d := range x.Managed {
		managed[d.Group] = d.Version != ""
	}
	seen := map[string]bool{}
	for _, d := range append(append([]dep{}, x.Depends...), x.Plugins...) {
		if seen[d.Artifact] {
			return "two dependencies on " + d.Artifact
		}
		seen[d.Artifact] = true
		if d.Group == "" || d.Artifact == "" || d.Version == "" && !(managed["org.glassfish.jersey"] && strings.HasPrefix(d.Group, "org.glassfish.jersey")) {
			return fmt.Sprintf("an incomplete dependency %+v", d)
		}
		delete(need, d.Artifact)
	}
	if len(need) > 0 {
		return fmt.Sprintf("no dependencies on %v", need)
	}
	props := map[string]bool{}
	for _, q := range x.Props.All {
		props[q.XMLName.Local] = strings.TrimSpace(q.Text) != ""
	}
	for _, d := range append(append(append([]dep{}, x.Depends...), x.Plugins...), x.Managed...) {
		if v := d.Version; strings.HasPrefix(v, "${") && !props[strings.Trim(v, "${}")] {
			return "an undefined version " + v
		}
	}
	return ""
}

// comments checks that the comments of the model are in the generated classes.
func comments(r *mon.Run, p *jx.Proj, dir string) {
	check := func(class string, all ...string) {
		b, err := os.ReadFile(filepath.Join(dir, p.Path(p.Model, class)))
		if err != nil {
			return
		}
		var w []string
		for _, l := range strings.Split(string(b), "\n") {
			if i := strings.Index(l, "//"); i >= 0 {
				w = append(w, strings.Fields(l[i+2:])...)
			}
		}
		text := " " + strings.Join(w, " ") + " "
		for _, c := range all {
			if c == "" || strings.ContainsAny(c, "\\") {
				continue
			}
			r.Event("comment")
			if !strings.Contains(text, " "+strings.Join(strings.Fields(c), " ")+" ") {
				r.Failf("comment", "the comment %q is not in class %s\n%s", c, class, b)
			}
		}
	}
	fields := func(fs []*sadl.StructFieldDef) (c []string) {
		for _, f := range fs {
			c = append(c, f.Comment)
		}
		return
	}
	for _, td := range p.S.Types {
		cs := append([]string{td.Comment}, fields(td.Fields)...)
		for _, e := range td.Elements {
			cs = append(cs, e.Comment)
		}
		for _, v := range td.Variants {
			cs = append(cs, v.Comment)
		}
		switch td.Type {
		case "Struct", "Enum", "Union", "UnitValue":
			check(gox.Cap(td.Name), cs...)
		}
	}
	for _, h := range p.S.Http {
		check(gox.Cap(h.Name)+"Request", fields(jx.Req(h))...)
		check(gox.Cap(h.Name)+"Response", fields(jx.Res(h))...)
	}
}
