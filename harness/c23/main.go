// C23: parsing any text ends with a model or an error.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/boynton/sadl"

	"verif/mon"
	"verif/ref"
	"verif/src"
)

var words = []string{"name", "namespace", "version", "type", "example", "http", "operation", "base", "include", "expect", "except", "Struct", "Enum", "Union", "Array", "List", "Map", "String", "Int32", "Decimal", "Timestamp", "UnitValue", "Any", "Bytes", "Bool", "UUID", "Quantity", "GET", "POST", "DELETE", "required", "default", "min", "max", "minsize", "maxsize", "pattern", "values", "reference", "action", "resource", "header", "x_a", "x_a=\"b\"", "true", "false", "null", "{", "}", "(", ")", "[", "]", "<", ">", ",", ";", ":", "=", ".", "/", "?", "$", "@", "-", "+", "*", "#", "\"", "\"a\"", "'a'", "`", "//", "// c\n", "/*", "*/", "\n", "\n\n", "\t", "0", "1", "-1", "1.5", "1e5", "1e999999", "99999999999999999999", "200", "204", "404", "\"/a/{b}\"", "\"/a?q={q}\"", "\"/{\"", "a", "b", "Foo", "Bar", "é", "\x00", "\xff", "\u2028", "日本"}

// positions where one token ends and another starts
func cuts(t string) []int {
	var out []int
	class := func(c byte) int {
		switch {
		case c == ' ' || c == '\t':
			return 0
		case c == '\n':
			return 1
		case c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_':
			return 2
		}
		return 3
	}
	for i := 1; i < len(t); i++ {
		if class(t[i]) != class(t[i-1]) || class(t[i]) == 3 {
			out = append(out, i)
		}
	}
	return append(out, 0, len(t))
}

func mutate(g *mon.Rand, t, other string) (string, string) {
	c := cuts(t)
	at := func() int { return c[g.Intn(len(c))] }
	span := func() (int, int) {
		a, b := at(), at()
		if b < a {
			a, b = b, a
		}
		if g.P(70) {
			if b > a+40 {
				b = a + 40
			}
		}
		return a, b
	}
	switch g.Intn(9) {
	case 0:
		a, b := span()
		return t[:a] + t[b:], "removed"
	case 1:
		a, b := span()
		p := at()
		return t[:p] + t[a:b] + t[p:], "repeated"
	case 2:
		p := at()
		return t[:p] + " " + g.PickS(words) + " " + t[p:], "inserted"
	case 3:
		a, b := span()
		return t[:a] + " " + g.PickS(words) + t[b:], "replaced"
	case 4:
		return t[:g.Intn(len(t)+1)], "cut"
	case 5:
		if len(t) == 0 {
			return t, "same"
		}
		b := []byte(t)
		b[g.Intn(len(b))] = byte(g.Intn(256))
		return string(b), "byte"
	case 6:
		oc := cuts(other)
		a := oc[g.Intn(len(oc))]
		p := at()
		return t[:p] + other[a:], "spliced"
	case 7:
		a, b := span()
		m, n := span()
		if b <= m {
			return t[:a] + t[m:n] + t[b:m] + t[a:b] + t[n:], "swapped"
		}
		return t[:a] + t[b:], "removed"
	}
	p := at()
	return t[:p] + strings.Repeat(g.PickS(words)+g.Pick("", " "), g.Range(2, 50)) + t[p:], "flooded"
}

func main() {
	mon.Main(mon.Spec{Prop: "C23", CPUSeconds: 20,
		Rule:        "sources of random models and the repository's examples damaged by 1-4 token and byte level mutations (removal, repetition, insertion, replacement, truncation, splicing, flooding), random token soup, and constructs nested thousands deep, parsed as strings and as files, with included files that are damaged, missing, directories or include each other; a panic, runaway CPU or memory use, both or neither of model and error, output on the standard output, or an accepted model with undefined or doubly defined names is a violation; every accepted text is parsed twice and must give the same model; non-trivial = distinct text",
		Assumptions: []string{"the tokenizer is the stand-in in shim/scanner"},
		MinEvents:   map[string]int{"rejected": 5000, "accepted": 500, "deep": 20, "include": 60, "soup": 500}},
		func(r *mon.Run) {
			parse := func(what, text string) {
				r.Note(text)
				r.Observe(text, len(text) > 0)
				var m, m2 *sadl.Model
				var err, err2 error
				out := mon.Capture(func() { m, err = sadl.ParseSadlString(text, sadl.NewData()) })
				judge(r, what, text, out, m, err)
				if err == nil && m != nil {
					mon.Capture(func() { m2, err2 = sadl.ParseSadlString(text, sadl.NewData()) })
					if err2 != nil || mon.JSON(m.Schema) != mon.JSON(m2.Schema) {
						r.Failf("repeat", "parsing the same text twice gave different models (%v)\n%s", err2, text)
					}
				}
			}
			var exs []string
			fs, _ := filepath.Glob("/repo/examples/*.sadl")
			for _, f := range fs {
				b, err := os.ReadFile(f)
				if err != nil {
					mon.Bug("%v", err)
				}
				exs = append(exs, string(b))
			}
			r.Cases("mutant", r.Scale(2500, 60000), func(i int, g *mon.Rand) {
				text := func() string {
					if len(exs) > 0 && g.P(15) {
						return g.PickS(exs)
					}
					_, s := src.Schema(g)
					t, _ := src.Write(g, s, g.P(30))
					return t
				}
				base, other := text(), text()
				for k := 0; k < 5; k++ {
					t := base
					for n := g.Pick0(1, 1, 1, 2, 4); n > 0; n-- {
						var how string
						t, how = mutate(g, t, other)
						r.Event("mutation " + how)
						if len(t) > 60000 {
							t = t[:60000]
						}
					}
					parse("mutant", t)
				}
			})
			r.Cases("soup", r.Scale(1500, 30000), func(i int, g *mon.Rand) {
				var b strings.Builder
				for n := g.Range(1, 25); n > 0; n-- {
					b.WriteString(g.PickS(words))
					b.WriteString(g.Pick(" ", " ", "", "\n"))
				}
				r.Event("soup")
				parse("soup", b.String())
			})
			r.Cases("deep", r.Scale(10, 80), func(i int, g *mon.Rand) {
				n := []int{10, 100, 1000, 3000}[g.Intn(4)]
				open, shut := g.Pick("{", "(", "[", "<"), g.Pick("}", ")", "]", ">")
				for _, t := range []string{
					"example Any " + strings.Repeat("[", n) + strings.Repeat("]", n) + "\n",
					"example Any " + strings.Repeat("{\"a\":", n) + "1" + strings.Repeat("}", n) + "\n",
					"type A " + strings.Repeat("Struct {\n a ", n) + "String\n" + strings.Repeat("}\n", n),
					"type A " + strings.Repeat("Array<", n) + "String" + strings.Repeat(">", n) + "\n",
					strings.Repeat(open, n), strings.Repeat(open, n) + strings.Repeat(shut, n),
					"type A Struct " + strings.Repeat(open, n), "type A Struct (" + strings.Repeat("x_a ", n),
					"// " + strings.Repeat("x", n*10) + "\ntype A String\n", "type " + strings.Repeat("A", n*10) + " String\n",
					"type A Enum {\n" + strings.Repeat(" A\n", n) + "}\n",
					"type A Decimal (min=" + strings.Repeat("9", n) + ")\n", "example Decimal " + strings.Repeat("9", n) + "." + strings.Repeat("9", n) + "\n",
					"http GET \"" + strings.Repeat("/{a}", n) + "\" {\n}\n",
				} {
					r.Event("deep")
					parse("deep", t)
				}
			})
			r.Cases("include", r.Scale(80, 1200), func(i int, g *mon.Rand) {
				dir := r.Scratch()
				a, b, c := filepath.Join(dir, "a.sadl"), filepath.Join(dir, "b.sadl"), filepath.Join(dir, "c.sadl")
				_, s := src.Schema(g)
				ta, _ := src.Write(g, s, true)
				tb, tc := "type ZzPart String\n", "type ZzMore String\n"
				must := false // must be an error
				what := ""
				switch i % 9 {
				case 0:
					what, must = "itself", true
					tb = "include \"" + a + "\"\n"
				case 1:
					what, must = "ring", true
					tb = "include \"" + c + "\"\n" + tb
					tc = "include \"" + g.Pick(a, b, c) + "\"\n" + tc
				case 2:
					what, must = "missing", true
					os.Remove(b)
				case 3:
					what, must = "directory", true
				case 4:
					what = "damaged"
					tb, _ = mutate(g, ta, tb)
				case 5:
					what, must = "broken", true
					tb = "type ZzPart String (\n"
				case 6:
					what, must = "conflict", true
					tb += "type " + s.Types[0].Name + " String\n"
				case 7:
					what = "chain"
					tb = "include \"" + c + "\"\n" + tb
				case 8:
					what = "empty"
					tb = ""
				}
				if what == "conflict" && len(s.Types) == 0 {
					return
				}
				ta = "include \"" + b + "\"\n" + ta
				write := func(f, t string) {
					if err := os.WriteFile(f, []byte(t), 0644); err != nil {
						mon.Bug("%v", err)
					}
				}
				write(a, ta)
				switch what {
				case "missing":
				case "directory":
					os.Mkdir(b, 0755)
				default:
					write(b, tb)
				}
				write(c, tc)
				all := ta + "\n---- b\n" + tb + "\n---- c\n" + tc
				r.Note(all)
				r.Observe(what+all, true)
				r.Event("include")
				r.Event("include " + what)
				var m *sadl.Model
				var err error
				out := mon.Capture(func() { m, err = sadl.ParseSadlFile(a, sadl.NewData()) })
				judge(r, "include "+what, all, out, m, err)
				if must && err == nil {
					r.Failf("include", "a source whose included file is unusable (%s) was accepted\n%s", what, all)
				}
				if err == nil && what == "chain" && (m.FindType("ZzPart") == nil || m.FindType("ZzMore") == nil) {
					r.Failf("include-lost", "types of included files are missing\n%s", all)
				}
				if err != nil && (what == "chain" || what == "empty") {
					r.Failf("include-rejected", "valid included files were rejected (%s): %v\n%s", what, err, all)
				}
				os.RemoveAll(b)
			})
		})
}

func judge(r *mon.Run, what, text, out string, m *sadl.Model, err error) {
	switch {
	case err != nil && m != nil:
		r.Failf("both", "%s: both a model and the error %v\n%s", what, err, text)
	case err == nil && m == nil:
		r.Failf("neither", "%s: neither a model nor an error\n%s", what, text)
	case err != nil:
		r.Event("rejected")
		if strings.TrimSpace(err.Error()) == "" {
			r.Failf("silent", "%s: an error without a message\n%s", what, text)
		}
	default:
		r.Event("accepted")
		if open := ref.Open(&m.Schema); len(open) > 0 {
			r.Failf("open", "%s: accepted, but %s\n%s", what, strings.Join(open, "; "), text)
		}
		for _, td := range m.Types {
			if m.FindType(td.Name) != td {
				r.Failf("index", "%s: type %s is not found in the model\n%s", what, td.Name, text)
			}
		}
	}
	if out != "" {
		r.Failf("output", "%s: parsing wrote to the standard output: %q\n%s", what, out, text)
	}
	_ = fmt.Sprint
}
