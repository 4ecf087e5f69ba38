// C24: a model written as SADL source and parsed again is the same model.
package main

import (
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/boynton/sadl"

	"verif/imp"
	"verif/mon"
	"verif/src"
)

func check(r *mon.Run, how string, s *sadl.Schema, m *sadl.Model, context string) {
	want := src.Canon(s)
	before := mon.JSON(m.Schema)
	var text string
	if p := mon.Try(func() { text = sadl.DecompileSadl(m) }); p != "" {
		r.Failf("crash", "%s: writing the model as source crashed: %s\n%s", how, p, before)
		return
	}
	r.Event("written: " + how)
	r.Observe(text, true)
	if mon.JSON(m.Schema) != before {
		r.Failf("changed", "%s: writing the model as source changed the model\n%s\n%s", how, before, mon.JSON(m.Schema))
	}
	if again := sadl.DecompileSadl(m); again != text {
		r.Failf("unstable", "%s: two different sources for the same model\n%s\n----\n%s", how, text, again)
	}
	m2, err := sadl.ParseSadlString(text, sadl.NewData())
	if err != nil {
		r.Failf("rejected", "%s: the source written for a model is rejected: %v\n%s\n%s", how, err, text, context)
		return
	}
	if got := src.Canon(&m2.Schema); got != want {
		r.Failf("model", "%s: the source written for a model describes another one\n%s\n---- source:\n%s", how, src.Diff(want, got), text)
		return
	}
	// and once more from the parsed model (lines of imported comments are refilled)
	if strings.HasPrefix(how, "imported") {
		return
	}
	if t2 := sadl.DecompileSadl(m2); trim(t2) != trim(text) {
		r.Failf("fixpoint", "%s: the source of the parsed model differs\n%s", how, src.Diff(text, t2))
	}
	r.Sample(text)
}

var ident = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z_0-9]*$`)

// expressible tells if the language has a form for what the model holds: names are identifiers, and text has no escapes.
func expressible(s *sadl.Schema) bool {
	ok := true
	name := func(n string) {
		if !ident.MatchString(n) {
			ok = false
		}
	}
	text := func(n string) {
		if strings.ContainsAny(n, "\"\\\n") {
			ok = false
		}
	}
	annos := func(a map[string]string) {
		for _, v := range a {
			text(v)
		}
	}
	var spec func(ts *sadl.TypeSpec)
	spec = func(ts *sadl.TypeSpec) {
		text(ts.Pattern)
		for _, v := range ts.Values {
			text(v)
		}
		for _, f := range ts.Fields {
			name(f.Name)
			annos(f.Annotations)
			spec(&f.TypeSpec)
		}
		for _, v := range ts.Variants {
			name(v.Name)
			spec(&v.TypeSpec)
		}
		for _, e := range ts.Elements {
			name(e.Symbol)
		}
	}
	for _, td := range s.Types {
		name(td.Name)
		annos(td.Annotations)
		spec(&td.TypeSpec)
	}
	params := func(ps []*sadl.HttpParamSpec) {
		for _, p := range ps {
			name(p.Name)
			annos(p.Annotations)
			spec(&p.TypeSpec)
		}
	}
	annos(s.Annotations)
	for _, ex := range s.Examples {
		text(ex.Name)
	}
	plain := func(ts sadl.TypeSpec) { // inputs and outputs of operations are names of types
		typ := ts.Type
		ts.Type = ""
		if mon.JSON(ts) != mon.JSON(sadl.TypeSpec{}) || typ == "Struct" || typ == "Enum" || typ == "Union" {
			ok = false
		}
	}
	for _, o := range s.Operations {
		name(o.Name)
		annos(o.Annotations)
		for _, p := range o.Inputs {
			name(p.Name)
			annos(p.Annotations)
			plain(p.TypeSpec)
			if p.Default != nil {
				ok = false
			}
		}
		for _, p := range o.Outputs {
			name(p.Name)
			annos(p.Annotations)
			plain(p.TypeSpec)
		}
	}
	for _, h := range s.Http {
		annos(h.Annotations)
		name(h.Name)
		params(h.Inputs)
		if h.Expected != nil {
			params(h.Expected.Outputs)
		}
	}
	return ok
}

func trim(t string) string {
	l := strings.Split(t, "\n")
	for i := range l {
		l[i] = strings.TrimRight(l[i], " ")
	}
	return strings.Join(l, "\n")
}

// valid tells if an imported model follows the rules that other kinds of documents do not have:
// distinct variants and exceptions, examples that conform to their types.
func valid(m *sadl.Model) bool {
	ok := true
	var spec func(ts *sadl.TypeSpec)
	spec = func(ts *sadl.TypeSpec) {
		seen := map[string]bool{}
		for _, v := range ts.Variants {
			ok = ok && !seen[v.Name]
			seen[v.Name] = true
		}
		for _, f := range ts.Fields {
			spec(&f.TypeSpec)
		}
	}
	for _, td := range m.Types {
		spec(&td.TypeSpec)
	}
	for _, h := range m.Http {
		for _, p := range h.Inputs {
			spec(&p.TypeSpec)
		}
		if h.Expected != nil {
			for _, p := range h.Expected.Outputs {
				spec(&p.TypeSpec)
			}
		}
		body := func(ps []*sadl.HttpParamSpec, may bool) {
			n := 0
			for _, p := range ps {
				if p.Header == "" && p.Query == "" && !p.Path {
					n++
				}
			}
			ok = ok && (n == 0 || n == 1 && may)
		}
		body(h.Inputs, h.Method == "POST" || h.Method == "PUT" || h.Method == "PATCH")
		if h.Expected != nil {
			body(h.Expected.Outputs, h.Expected.Status != 204 && h.Expected.Status != 304)
		}
		seen := map[string]bool{}
		for _, e := range h.Exceptions {
			ok = ok && !seen[e.Type] && e.Type != ""
			seen[e.Type] = true
		}
	}
	for _, ex := range m.Examples {
		var ps []*sadl.HttpParamSpec
		found := false
		for _, h := range m.Http {
			if m.FindType(ex.Target) != nil {
				break
			}
			if sadl.Capitalize(h.Name)+"Request" == ex.Target {
				ps, found = h.Inputs, true
			} else if sadl.Capitalize(h.Name)+"Response" == ex.Target && h.Expected != nil {
				ps, found = h.Expected.Outputs, true
			}
		}
		if found {
			o, isObj := ex.Example.(map[string]interface{})
			ok = ok && isObj
			for _, p := range ps {
				v, given := o[p.Name]
				if given && m.ValidateAgainstTypeSpec("", &p.TypeSpec, v) != nil || !given && (p.Required || p.Path || p.Query+p.Header == "") {
					return false
				}
			}
			continue
		}
		ts, err := m.FindExampleType(ex)
		if err != nil {
			return false
		}
		if ts != nil && m.ValidateAgainstTypeSpec("", ts, ex.Example) != nil {
			return false
		}
	}
	return ok
}

func main() {
	mon.Main(mon.Spec{Prop: "C24",
		Rule:        "random models over the whole language, given directly, parsed from source in random layouts, loaded from JSON, or imported from random OpenAPI, Swagger and GraphQL documents and the repository's examples; each written with DecompileSadl (twice) and CreateSadlSource, parsed back and compared with the original node by node; non-trivial = distinct source text",
		Assumptions: []string{"the tokenizer is the stand-in in shim/scanner, whose strings have no escapes: names, patterns, values and annotations without quotes and backslashes", "comments compared by words", "array and map items and union variants of imported documents are references or scalar types"},
		MinEvents:   map[string]int{"written: model": 500, "written: parsed": 300, "written: imported openapi": 100, "written: imported swagger": 100, "written: imported graphql": 100, "written: imported smithy": 100, "file": 50}},
		func(r *mon.Run) {
			r.Cases("model", r.Scale(2000, 40000), func(i int, rnd *mon.Rand) {
				_, s := src.Schema(rnd)
				how := "model"
				var m *sadl.Model
				var err error
				switch i % 4 {
				case 1:
					how = "parsed"
					text, _ := src.Write(rnd, s, false)
					r.Note(text)
					m, err = sadl.ParseSadlString(text, sadl.NewData())
				case 2:
					how = "loaded"
					f := filepath.Join(r.Scratch(), "m.json")
					if e := os.WriteFile(f, []byte(mon.JSON(s)), 0644); e != nil {
						mon.Bug("%v", e)
					}
					m, err = sadl.LoadModel(f)
				default:
					m, err = sadl.NewModel(s)
				}
				if err != nil {
					r.Failf("model-rejected", "a valid model was rejected (%s): %v\n%s", how, err, mon.JSON(s))
					return
				}
				r.Note(mon.JSON(m.Schema))
				check(r, how, s, m, "")
				if i%10 == 0 {
					dir := r.Scratch()
					g := sadl.NewGenerator(m, dir)
					g.CreateSadlSource()
					f := filepath.Join(dir, m.Name+".sadl")
					b, err := os.ReadFile(f)
					r.Event("file")
					if g.Err != nil || err != nil {
						r.Failf("file", "CreateSadlSource did not write %s: %v %v", f, g.Err, err)
						return
					}
					if string(b) != sadl.DecompileSadl(m) {
						r.Failf("file-text", "CreateSadlSource wrote something else than the source of the model\n%s", b)
					}
					os.Remove(f)
				}
			})
			imported := func(how string, m *sadl.Model, err error, text string) {
				if err != nil {
					r.Failf("import", "%s: a valid document was rejected: %v\n%s", how, err, text)
					return
				}
				if !expressible(&m.Schema) || !valid(m) {
					r.Event("not expressible in the language")
					return
				}
				// bodies and path parameters are always required in the language
				for _, h := range m.Http {
					ps := h.Inputs
					if h.Expected != nil {
						ps = append(ps[:len(ps):len(ps)], h.Expected.Outputs...)
					}
					for _, p := range ps {
						if p.Header == "" && p.Query == "" {
							p.Required = true
						}
					}
				}
				if m.Name == "" { // a source without a name is named after its file
					m.Name = "unnamed"
				}
				check(r, "imported "+how, &m.Schema, m, text)
			}
			r.Cases("import", r.Scale(2400, 24000), func(i int, rnd *mon.Rand) {
				kind := imp.Kinds[i%len(imp.Kinds)]
				m, text, err := imp.Import(rnd, r.Scratch(), kind, false, sadl.NewData())
				r.Note(text)
				imported(kind, m, err, text)
			})
			r.Once("examples", func() {
				fs, _ := filepath.Glob("/repo/examples/*.sadl")
				for _, f := range fs {
					b, _ := os.ReadFile(f)
					if strings.Contains(string(b), "\\") {
						continue
					}
					m, err := sadl.ParseSadlFile(f, sadl.NewData())
					if err != nil {
						r.Failf("example", "%s rejected: %v", f, err)
						continue
					}
					check(r, "example", &m.Schema, m, string(b))
				}
			})
		})
}
