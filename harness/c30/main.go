// C30: included files are one with the source, and extensions get exactly their statements.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/boynton/scanner"

	"github.com/boynton/sadl"

	"verif/gen"
	"verif/mon"
	"verif/src"
)

func main() {
	mon.Main(mon.Spec{Prop: "C30",
		Rule:        "random models with statements of up to three extensions of the language between the definitions, spread over a tree of included files, written in random layouts; parsed with the extensions as file and as text; the model, the record that each extension made of its statements through the public functions of the parser, the order of the calls and what it found in the model at validation are compared with what was written; sources with unknown statements, failing or equal extensions, and missing, damaged, cyclic or colliding included files must be refused; non-trivial = distinct source",
		Assumptions: []string{"the tokenizer is the stand-in in shim/scanner", "which of the nested files the x_include annotation names is open", "comments are compared by words"},
		MinEvents:   map[string]int{"parsed": 1000, "statement": 2000, "included file": 1000, "nested file": 200, "refused": 1000, "no statement": 50, "end of file": 50}},
		func(r *mon.Run) {
			r.Cases("source", r.Scale(1500, 30000), func(i int, g *mon.Rand) { one(r, g) })
		})
}

var all = []string{"required", "default", "pattern", "values", "minsize", "maxsize", "min", "max", "name", "header", "reference"}

// ext is an extension as its user would write it; it records what it sees.
type ext struct {
	name      string
	got       []*src.Ext
	log       *[]string
	validated int
	types     int
	actions   int
	fail      string
	raw       bool
	unget     bool
}

func (x *ext) Name() string        { return x.name }
func (x *ext) Result() interface{} { return x }

func (x *ext) Validate(p *sadl.Parser) error {
	x.validated++
	x.types, x.actions = len(p.Model().Types), len(p.Model().Http)
	if x.fail == "validate" {
		return p.Error("not valid")
	}
	return nil
}

func (x *ext) Parse(p *sadl.Parser) error {
	e := &src.Ext{Keyword: x.name}
	*x.log = append(*x.log, x.name)
	comment := p.CurrentComment()
	if x.fail == "parse" {
		return p.SyntaxError()
	}
	x.got = append(x.got, e)
	if x.name == "rule" {
		for {
			tok := p.GetToken()
			if tok == nil || tok.Type == scanner.NEWLINE {
				break
			}
			if x.unget {
				p.UngetToken()
				again := p.GetToken()
				if again == nil || again.Type != tok.Type || again.Text != tok.Text {
					return fmt.Errorf("another token: %v, then %v", tok, again)
				}
			}
			if tok.Type == scanner.LINE_COMMENT {
				comment = p.MergeComment(comment, tok.Text)
				continue
			}
			e.Words = append(e.Words, tok.Text)
		}
		e.Comment = comment
		return nil
	}
	var err error
	if e.Id, err = p.ExpectCompoundIdentifier(); err != nil {
		return err
	}
	tok := p.GetToken()
	if tok != nil && tok.Type == scanner.STRING {
		if x.unget {
			p.UngetToken()
			if e.Text, err = p.ExpectString(); err != nil {
				return err
			}
		} else {
			e.Text = tok.Text
		}
	} else if tok != nil {
		p.UngetToken()
	}
	o, err := p.ParseOptions(x.name, []string{"name", "header", "min"})
	if err != nil {
		return err
	}
	e.Name, e.Header, e.Min, e.Annos = o.Name, o.Header, o.Min, o.Annotations
	tok = p.GetToken()
	if tok == nil || tok.Type != scanner.OPEN_BRACE {
		if tok != nil {
			p.UngetToken()
		}
		e.Comment, err = p.EndOfStatement(comment)
		return err
	}
	e.Block = true
	comment = p.ParseTrailingComment(comment)
	for {
		done, c, err := p.IsBlockDone("")
		if err != nil {
			return err
		}
		if done {
			break
		}
		f := &sadl.StructFieldDef{}
		if f.Name, err = p.ExpectIdentifier(); err != nil {
			return err
		}
		ts, o1, c, err := p.ParseTypeSpec(c)
		if err != nil {
			return err
		}
		o, err := p.ParseOptions(x.name, all)
		if err != nil {
			return err
		}
		f.TypeSpec = *ts
		f.Required, f.Default, f.Pattern, f.Values, f.MinSize, f.MaxSize, f.Min, f.Max, f.Reference = o.Required, o.Default, o.Pattern, o.Values, o.MinSize, o.MaxSize, o.Min, o.Max, o.Reference
		for _, a := range []map[string]string{o1.Annotations, o.Annotations} {
			for k, v := range a {
				if f.Annotations == nil {
					f.Annotations = map[string]string{}
				}
				f.Annotations[k] = v
			}
		}
		if f.Comment, err = p.EndOfStatement(c); err != nil {
			return err
		}
		e.Entries = append(e.Entries, f)
	}
	e.Comment, err = p.EndOfStatement(comment)
	return err
}

// file is one of the files of a source.
type file struct {
	path  string
	items []item
	head  sadl.Schema
	depth int
	text  string
}

type item struct {
	kind    int // 0-3 definitions, 4 extension, 5 include
	index   int
	ext     *src.Ext
	inc     *file
	comment string
}

type source struct {
	dir, name string
	s         *sadl.Schema
	root      *file
	files     []*file
	want      sadl.Schema
	exts      []*src.Ext
	keys      []string
}

func (c *source) names(f *file) string {
	return f.path
}

func build(r *mon.Run, rnd *mon.Rand, dir string) *source {
	g, s := src.Schema(rnd)
	c := &source{dir: dir, s: s}
	c.root = &file{path: filepath.Join(dir, "whole.sadl"), head: *s}
	c.files = []*file{c.root}
	for i, n := 0, rnd.Intn(4); i < n; i++ {
		up := c.files[rnd.Intn(len(c.files))]
		f := &file{path: filepath.Join(dir, fmt.Sprintf("%s%d.sadl", rnd.Pick("part", "b ", "sub/x"), i)), depth: up.depth + 1}
		if rnd.Bool() { // includes are looked up from where the process is
			f.path, _ = filepath.Rel(dir, f.path)
			if rnd.Bool() {
				f.path = "./" + f.path
			}
		}
		f.head = sadl.Schema{Sadl: s.Sadl, Name: "other"}
		if rnd.Bool() {
			f.head.Namespace, f.head.Version, f.head.Base, f.head.Comment = "other.ns", "99", "/other", "about the part"
			f.head.Annotations = map[string]string{"x_other": "y"}
		}
		it := item{kind: 5, inc: f}
		if rnd.P(30) {
			it.comment = rnd.Pick("the parts", "see there", "one two three")
		}
		up.items = append(up.items, it)
		c.files = append(c.files, f)
		r.Event("included file")
		if f.depth > 1 {
			r.Event("nested file")
		}
	}
	for _, k := range []string{"widget", "rule", "Service"} {
		if rnd.P(60) {
			c.keys = append(c.keys, k)
		}
	}
	var items []item
	for i := range s.Types {
		items = append(items, item{kind: 0, index: i})
	}
	for i := range s.Operations {
		items = append(items, item{kind: 1, index: i})
	}
	for i := range s.Http {
		items = append(items, item{kind: 2, index: i})
	}
	for i := range s.Examples {
		items = append(items, item{kind: 3, index: i})
	}
	if len(c.keys) > 0 {
		for i, n := 0, rnd.Intn(6); i < n; i++ {
			var fields []*sadl.StructFieldDef
			td := g.Def("Struct")
			fields = td.Fields
			if len(s.Types) > 0 && rnd.Bool() {
				for _, t := range s.Types {
					if t.Type == "Struct" && len(t.Fields) > 0 {
						fields = t.Fields
					}
				}
			}
			items = append(items, item{kind: 4, ext: src.RandExt(rnd, rnd.PickS(c.keys), fields)})
			r.Event("statement")
		}
	}
	p := rnd.Perm(len(items))
	for _, k := range p {
		f := c.files[rnd.Intn(len(c.files))]
		at := rnd.Intn(len(f.items) + 1)
		f.items = append(f.items[:at:at], append([]item{items[k]}, f.items[at:]...)...)
	}
	return c
}

// write gives each file its text and collects what the whole means.
func (c *source) write(r *mon.Run, rnd *mon.Rand) {
	var words []string
	c.want = sadl.Schema{Sadl: c.s.Sadl, Name: c.s.Name, Namespace: c.s.Namespace, Version: c.s.Version, Base: c.s.Base, Annotations: c.s.Annotations, Comment: c.s.Comment}
	var visit func(f *file)
	visit = func(f *file) {
		w := src.NewW(rnd, rnd.P(20))
		var texts []string
		for _, it := range f.items {
			switch it.kind {
			case 4:
				texts = append(texts, w.Extension(it.ext))
				c.exts = append(c.exts, it.ext)
			case 5:
				texts = append(texts, w.Commented(it.comment, "include "+`"`+it.inc.path+`"`))
				if f == c.root {
					words = append(words, it.comment)
				}
				visit(it.inc)
			default:
				texts = append(texts, w.Definition(c.s, it.kind, it.index))
				var a *map[string]string
				switch it.kind {
				case 0:
					t := *c.s.Types[it.index]
					c.want.Types = append(c.want.Types, &t)
					a = &t.Annotations
				case 1:
					t := *c.s.Operations[it.index]
					c.want.Operations = append(c.want.Operations, &t)
					a = &t.Annotations
				case 2:
					t := *c.s.Http[it.index]
					c.want.Http = append(c.want.Http, &t)
					a = &t.Annotations
				case 3:
					t := *c.s.Examples[it.index]
					c.want.Examples = append(c.want.Examples, &t)
					a = &t.Annotations
				}
				if f != c.root {
					m := map[string]string{"x_include": "somewhere"}
					for k, v := range *a {
						m[k] = v
					}
					*a = m
				}
			}
		}
		f.text = src.Part(w, &f.head, texts)
		if rnd.P(30) {
			f.text = strings.TrimRight(f.text, "\n")
			if n := len(f.items); n > 0 && f.items[n-1].kind == 4 {
				r.Event("end of file")
			}
		}
	}
	visit(c.root)
	c.want.Comment = strings.TrimSpace(c.want.Comment + " " + strings.Join(words, " "))
	for _, f := range c.files {
		c.put(f.path, f.text)
	}
}

func (c *source) put(path, text string) {
	if !filepath.IsAbs(path) {
		path = filepath.Join(c.dir, path)
	}
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		mon.Bug("%v", err)
	}
	if err := os.WriteFile(path, []byte(text), 0644); err != nil {
		mon.Bug("%v", err)
	}
}

func (c *source) String() string {
	t := ""
	for _, f := range c.files {
		t += "==== " + f.path + "\n" + f.text + "\n"
	}
	return t
}

func (c *source) extensions(rnd *mon.Rand, log *[]string) (l []sadl.Extension, m map[string]*ext) {
	m = map[string]*ext{}
	for _, k := range c.keys {
		x := &ext{name: k, log: log, unget: rnd.Bool()}
		m[k] = x
		l = append(l, x)
	}
	return
}

func (c *source) parse(asText bool, conf *sadl.Data, exts []sadl.Extension) (*sadl.Model, error) {
	if asText {
		return sadl.ParseSadlString(c.root.text, conf, exts...)
	}
	return sadl.ParseSadlFile(c.root.path, conf, exts...)
}

// mask replaces what x_include says by one word, after a look at it.
func mask(c *source, s *sadl.Schema) string {
	bad := ""
	one := func(a map[string]string) map[string]string {
		v, ok := a["x_include"]
		if !ok {
			return a
		}
		for _, f := range c.files[1:] {
			if f.path == v {
				v = ""
			}
		}
		if v != "" {
			bad = v
		}
		n := map[string]string{}
		for k, v := range a {
			n[k] = v
		}
		n["x_include"] = "somewhere"
		return n
	}
	for _, t := range s.Types {
		t.Annotations = one(t.Annotations)
	}
	for _, t := range s.Operations {
		t.Annotations = one(t.Annotations)
	}
	for _, t := range s.Http {
		t.Annotations = one(t.Annotations)
	}
	for _, t := range s.Examples {
		t.Annotations = one(t.Annotations)
	}
	return bad
}

func records(l []*src.Ext) string {
	var b strings.Builder
	for _, e := range l {
		s := sadl.Schema{Types: []*sadl.TypeDef{{Name: e.Keyword + " " + e.Id + " " + e.Text + " " + e.Name + " " + e.Header, Annotations: e.Annos, Comment: e.Comment}}}
		s.Types[0].Type = fmt.Sprint(e.Words, e.Block)
		s.Types[0].Fields = e.Entries
		s.Types[0].Min = e.Min
		b.WriteString(src.Canon(&s) + "\n")
	}
	return b.String()
}

func one(r *mon.Run, rnd *mon.Rand) {
	dir := r.Scratch()
	defer os.RemoveAll(dir)
	if err := os.Chdir(dir); err != nil {
		mon.Bug("%v", err)
	}
	defer os.Chdir("/")
	c := build(r, rnd, dir)
	c.write(r, rnd)
	context := c.String()
	r.Note(context)
	r.Observe(context, true)
	var log []string
	l, m := c.extensions(rnd, &log)
	conf := sadl.NewData()
	model, err := c.parse(rnd.P(30), conf, l)
	r.Event("parsed")
	if err != nil {
		r.Failf("rejected", "a valid source was rejected: %v\n%s", err, context)
		return
	}
	if bad := mask(c, &model.Schema); bad != "" {
		r.Failf("include", "x_include names %q\n%s", bad, context)
	}
	want, got := src.Canon(&c.want), src.Canon(&model.Schema)
	if want != got {
		r.Failf("model", "the model is not the one described\n%s\n%s", src.Diff(want, got), context)
		return
	}
	for _, td := range model.Types {
		if model.FindType(td.Name) != td {
			r.Failf("index", "type %s is not found\n%s", td.Name, context)
		}
	}
	var calls []string
	by := map[string][]*src.Ext{}
	for _, e := range c.exts {
		calls = append(calls, e.Keyword)
		by[e.Keyword] = append(by[e.Keyword], e)
	}
	if a, b := strings.Join(calls, " "), strings.Join(log, " "); a != b {
		r.Failf("calls", "the extensions were called for %q, the source has %q\n%s", b, a, context)
	}
	if len(model.Extensions) != len(c.keys) {
		r.Failf("result", "results of %d extensions, %d were given\n%s", len(model.Extensions), len(c.keys), context)
	}
	for k, x := range m {
		if len(by[k]) == 0 {
			r.Event("no statement")
		}
		if a, b := records(by[k]), records(x.got); a != b {
			r.Failf("statement", "extension %s read something else than what is written\n%s\n%s", k, src.Diff(a, b), context)
		}
		if model.Extensions[k] != x {
			r.Failf("result", "the result of extension %s is %v\n%s", k, model.Extensions[k], context)
		}
		if x.validated != 1 || x.types != len(c.want.Types) || x.actions != len(c.want.Http) {
			r.Failf("validate", "extension %s was asked to validate %d times, a model of %d types and %d actions of %d and %d\n%s", k, x.validated, x.types, x.actions, len(c.want.Types), len(c.want.Http), context)
		}
	}
	r.Sample(context)
	// what must be refused
	for n := 0; n < 2; n++ {
		refuse(r, rnd, c)
	}
}

func refuse(r *mon.Run, rnd *mon.Rand, c *source) {
	var log []string
	l, m := c.extensions(rnd, &log)
	what := ""
	var f *file
	asText := rnd.P(30)
	k := ""
	if len(c.keys) > 0 {
		k = rnd.PickS(c.keys)
	}
	statement := "widget Box"
	switch k {
	case "rule":
		statement = "rule first"
	case "Service":
		statement = "Service Box"
	}
	change := func(g *file, text string) {
		f = g
		c.put(g.path, text)
		if g == c.root {
			old := g.text
			g.text = text
			f = &file{path: g.path, text: old}
		}
	}
	any := c.files[rnd.Intn(len(c.files))]
	end := func(g *file) string { return strings.TrimRight(g.text, "\n") + "\n" }
	switch rnd.Intn(13) {
	case 0:
		what = "a statement of no extension"
		change(any, end(any)+rnd.Pick("gadget Box", "Widget Box", "servicex Box {\n}", "rules a b")+"\n")
	case 1:
		if k == "" {
			return
		}
		what = "an extension that refuses its statement"
		m[k].fail = "parse"
		change(any, end(any)+statement+"\n")
	case 2:
		if k == "" {
			return
		}
		what = "an extension that refuses the model"
		m[k].fail = "validate"
	case 3:
		if k == "" {
			return
		}
		what = "two extensions with one name"
		l = append(l, &ext{name: k, log: &log})
	case 4:
		what = "a missing included file"
		change(any, end(any)+"include \""+rnd.Pick("nothing.sadl", c.dir+"/none.sadl", "", ".")+"\"\n")
	case 5:
		if len(c.files) < 2 {
			return
		}
		g := c.files[1+rnd.Intn(len(c.files)-1)]
		what = "a damaged included file"
		change(g, end(g)+rnd.Pick("type", "}", "type Zork Struct {\n", "type Zork Undefined.\n", "include", "http GET"))
	case 6:
		if len(c.files) < 2 {
			return
		}
		what = "a file that includes itself"
		g := c.files[1+rnd.Intn(len(c.files)-1)]
		change(g, end(g)+"include \""+rnd.Pick("", "./")+g.path+"\"\n")
		if filepath.IsAbs(g.path) {
			c.put(g.path, end(g)+"include \""+g.path+"\"\n")
		}
	case 7:
		if len(c.files) < 2 {
			return
		}
		what = "files that include each other"
		asText = false
		g := c.files[1+rnd.Intn(len(c.files)-1)]
		change(g, end(g)+"include \""+c.root.path+"\"\n")
	case 8:
		if len(c.files) < 2 || len(c.want.Types) == 0 {
			return
		}
		g := c.files[1+rnd.Intn(len(c.files)-1)]
		what = "a type defined in two files"
		change(g, end(g)+"type "+c.want.Types[rnd.Intn(len(c.want.Types))].Name+" String\n")
	case 9:
		if len(c.want.Types) == 0 {
			return
		}
		// twice the same file
		for _, g := range c.files[1:] {
			for _, it := range g.items {
				if it.kind == 0 {
					what = "a file included twice"
					change(c.root, end(c.root)+"include \""+g.path+"\"\n")
					break
				}
			}
			if what != "" {
				break
			}
		}
	case 10:
		what = "an undefined type"
		change(any, end(any)+"type Zork Struct {\n  a "+rnd.Pick("Nowhere", "rule_", "Array<Nowhere>")+"\n}\n")
	case 11:
		if k == "" || k == "rule" {
			return
		}
		what = "an incomplete statement of an extension"
		change(any, end(any)+k+rnd.Pick("", " \"x\"", " Box (", " Box {", " Box {\n a", " Box (min)", " Box (nothing=1)", " Box x", " Box.", " Box (name=1)", " Box {\n a Array<>\n}"))
	case 12:
		if k == "" {
			return
		}
		what = "a statement of an extension that was not given"
		var l2 []sadl.Extension
		for _, x := range l {
			if x.Name() != k {
				l2 = append(l2, x)
			}
		}
		l = l2
		change(any, end(any)+statement+"\n")
	}
	if what == "" {
		return
	}
	if asText && f != nil && f.path == c.root.path { // the text has the change
	} else if asText && f == nil {
	}
	r.Event("refused")
	r.Event("refused: " + what)
	var err error
	if p := mon.Try(func() { _, err = c.parse(asText, sadl.NewData(), l) }); p != "" {
		r.Failf("crash", "%s: %s\n%s", what, p, c)
	} else if err == nil {
		r.Failf("not-refused", "%s was accepted\n%s", what, current(c))
	}
	if f != nil {
		for _, g := range c.files {
			if g.path == f.path {
				g.text = f.text
			}
			c.put(g.path, g.text)
		}
	}
}

// current shows the files as they are on disk.
func current(c *source) string {
	t := ""
	for _, f := range c.files {
		b, _ := os.ReadFile(f.path)
		t += "==== " + f.path + "\n" + string(b) + "\n"
	}
	return t
}

var _ = gen.New
