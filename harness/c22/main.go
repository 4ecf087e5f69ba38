// C22: source that is not a valid model is rejected.
package main

import (
	"fmt"
	"strings"

	"github.com/boynton/sadl"

	"verif/gen"
	"verif/mon"
	"verif/src"
)

const ghost = "NoSuchType"

type world struct {
	*gen.G
	s *sadl.Schema
}

func (w *world) typeOf(kind string) *sadl.TypeDef {
	var c []*sadl.TypeDef
	for _, td := range w.s.Types {
		if td.Type == kind {
			c = append(c, td)
		}
	}
	if len(c) == 0 {
		td := w.Def(kind)
		if kind == "Union" {
			td.Variants = []*sadl.UnionVariantDef{{Name: "a", TypeSpec: sadl.TypeSpec{Type: "String"}}, {Name: "b", TypeSpec: sadl.TypeSpec{Type: "Int32"}}}
		}
		w.s.Types = append(w.s.Types, td)
		return td
	}
	return c[w.Intn(len(c))]
}

func (w *world) field(ts sadl.TypeSpec) *sadl.StructFieldDef {
	td := w.typeOf("Struct")
	f := &sadl.StructFieldDef{Name: "zz" + fmt.Sprint(len(td.Fields)), TypeSpec: ts}
	i := w.Intn(len(td.Fields) + 1)
	td.Fields = append(td.Fields[:i:i], append([]*sadl.StructFieldDef{f}, td.Fields[i:]...)...)
	return f
}

func (w *world) http(method string) *sadl.HttpDef {
	h := &sadl.HttpDef{Method: method, Path: "/zz/{zid}?zq={zq}", Name: "zzAction", Expected: &sadl.HttpExpectedSpec{Status: 200}}
	p := &sadl.HttpParamSpec{Path: true}
	p.Name, p.Type, p.Required = "zid", "String", true
	q := &sadl.HttpParamSpec{Query: "zq"}
	q.Name, q.Type = "zq", "Int32"
	h.Inputs = []*sadl.HttpParamSpec{p, q}
	i := w.Intn(len(w.s.Http) + 1)
	w.s.Http = append(w.s.Http[:i:i], append([]*sadl.HttpDef{h}, w.s.Http[i:]...)...)
	return h
}

func body(name, typ string) *sadl.HttpParamSpec {
	p := &sadl.HttpParamSpec{}
	p.Name, p.Type = name, typ
	return p
}

func sp(s string) *string { return &s }

func dec(n float64) *sadl.Decimal { return sadl.NewDecimal(n) }

type corruption struct {
	name string
	f    func(w *world)
}

var corruptions = []corruption{
	{"undefined field type", func(w *world) { w.field(sadl.TypeSpec{Type: ghost}) }},
	{"undefined items of field", func(w *world) { w.field(sadl.TypeSpec{Type: "Array", Items: ghost}) }},
	{"undefined items of map field", func(w *world) { w.field(sadl.TypeSpec{Type: "Map", Keys: "String", Items: ghost}) }},
	{"undefined keys of map field", func(w *world) {
		w.field(sadl.TypeSpec{Type: "Map", Keys: ghost, Items: w.Pick("Any", "String", "Int32")})
	}},
	{"undefined unit of field", func(w *world) { w.field(sadl.TypeSpec{Type: "UnitValue", Value: "Decimal", Unit: ghost}) }},
	{"undefined reference of field", func(w *world) {
		w.field(sadl.TypeSpec{Type: w.Pick("String", "UUID"), Reference: ghost})
	}},
	{"undefined field type of inline struct", func(w *world) {
		in := &sadl.StructFieldDef{Name: "a", TypeSpec: sadl.TypeSpec{Type: ghost}}
		ts := sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{in}}
		if w.Bool() {
			ts = sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{{Name: "b", TypeSpec: ts}}}
		}
		w.field(ts)
	}},
	{"undefined array items", func(w *world) { w.typeOf("Array").Items = ghost }},
	{"undefined map items", func(w *world) { w.typeOf("Map").Items = ghost }},
	{"undefined map keys", func(w *world) {
		td := w.typeOf("Map")
		td.Keys = ghost
		if w.Bool() {
			td.Items = "Any"
		}
	}},
	{"undefined variant", func(w *world) {
		td := w.typeOf("Union")
		v := td.Variants[w.Intn(len(td.Variants))]
		if v.Name == v.Type {
			v.Name = ghost
		}
		v.TypeSpec = sadl.TypeSpec{Type: ghost}
	}},
	{"undefined items of variant", func(w *world) {
		td := w.typeOf("Union")
		v := td.Variants[w.Intn(len(td.Variants))]
		v.Name = "zz"
		v.TypeSpec = sadl.TypeSpec{Type: "Array", Items: ghost}
	}},
	{"undefined value of unit value", func(w *world) { w.typeOf("UnitValue").Value = ghost }},
	{"undefined unit of unit value", func(w *world) { w.typeOf("UnitValue").Unit = ghost }},
	{"value of unit value not a number", func(w *world) { w.typeOf("UnitValue").Value = w.Pick("String", "Bool", "Any", "Timestamp") }},
	{"unit of unit value not a string", func(w *world) { w.typeOf("UnitValue").Unit = w.Pick("Int32", "Bool", "Any") }},
	{"undefined reference", func(w *world) {
		td := w.typeOf("UUID")
		td.Reference = ghost
	}},
	{"undefined input", func(w *world) {
		h := w.http(w.Pick("GET", "PUT"))
		h.Inputs[w.Intn(2)].Type = ghost
	}},
	{"undefined items of input", func(w *world) { p := w.http("GET").Inputs[1]; p.Type, p.Items = "Array", ghost }},
	{"undefined body", func(w *world) { h := w.http("POST"); h.Inputs = append(h.Inputs, body("zb", ghost)) }},
	{"undefined output", func(w *world) {
		w.http("GET").Expected.Outputs = []*sadl.HttpParamSpec{body(w.Pick("zb", "entity"), ghost)}
	}},
	{"undefined exception", func(w *world) {
		h := w.http("GET")
		h.Exceptions = []*sadl.HttpExceptionSpec{{Type: ghost, Status: 404}}
		if w.Bool() {
			h.Expected = nil
		}
	}},
	{"undefined operation input", func(w *world) {
		op := &sadl.OperationDef{Name: "zzop", Inputs: []*sadl.OperationInput{{}}}
		op.Inputs[0].Name, op.Inputs[0].Type = "a", ghost
		w.s.Operations = append(w.s.Operations, op)
	}},
	{"undefined operation output", func(w *world) {
		op := &sadl.OperationDef{Name: "zzop", Outputs: []*sadl.OperationOutput{{}}}
		op.Outputs[0].Name, op.Outputs[0].Type = "a", ghost
		w.s.Operations = append(w.s.Operations, op)
	}},
	{"undefined operation exception", func(w *world) {
		w.s.Operations = append(w.s.Operations, &sadl.OperationDef{Name: "zzop", Exceptions: []string{ghost}})
	}},
	{"duplicate type", func(w *world) {
		td := *w.s.Types[w.Intn(len(w.s.Types))]
		i := w.Intn(len(w.s.Types) + 1)
		w.s.Types = append(w.s.Types[:i:i], append([]*sadl.TypeDef{&td}, w.s.Types[i:]...)...)
	}},
	{"base type redefined", func(w *world) {
		td := w.Def("String")
		td.Name = w.Pick("String", "Int32", "UUID", "Any")
		w.s.Types = append(w.s.Types, td)
	}},
	{"duplicate action", func(w *world) {
		w.http("GET")
		h := *w.http("PUT")
		h.Path = "/other"
		h.Inputs = nil
		w.s.Http = append(w.s.Http, &h)
	}},
	{"duplicate field", func(w *world) {
		f := w.field(sadl.TypeSpec{Type: "String"})
		td := w.s.Types[0]
		for _, t := range w.s.Types {
			for _, x := range t.Fields {
				if x == f {
					td = t
				}
			}
		}
		g := *f
		g.Type = w.Pick("String", "Int32")
		td.Fields = append(td.Fields, &g)
	}},
	{"duplicate symbol", func(w *world) {
		td := w.typeOf("Enum")
		td.Elements = append(td.Elements, &sadl.EnumElementDef{Symbol: td.Elements[w.Intn(len(td.Elements))].Symbol})
	}},
	{"duplicate symbol of inline enum", func(w *world) {
		w.field(sadl.TypeSpec{Type: "Enum", Elements: []*sadl.EnumElementDef{{Symbol: "A"}, {Symbol: "B"}, {Symbol: "A"}}})
	}},
	{"duplicate variant", func(w *world) { td := w.typeOf("Union"); v := *td.Variants[0]; td.Variants = append(td.Variants, &v) }},
	{"duplicate parameter", func(w *world) { h := w.http("GET"); p := *h.Inputs[0]; h.Inputs = append(h.Inputs, &p) }},
	{"duplicate output", func(w *world) {
		h := w.http("GET")
		a, b := body("zh", "String"), body("zh", "String")
		a.Header, b.Header = "X-A", "X-B"
		h.Expected.Outputs = []*sadl.HttpParamSpec{a, b}
	}},
	{"duplicate exception", func(w *world) {
		t := w.typeOf("Struct").Name
		w.http("GET").Exceptions = []*sadl.HttpExceptionSpec{{Type: t, Status: 404}, {Type: t, Status: 409}}
	}},
	{"wrong default", func(w *world) { w.field(sadl.TypeSpec{Type: "Int32"}).Default = "x" }},
	{"default out of range", func(w *world) { w.field(sadl.TypeSpec{Type: "Int8"}).Default = dec(300) }},
	{"default over the limit", func(w *world) { w.field(sadl.TypeSpec{Type: "Int32", Max: dec(5)}).Default = dec(6) }},
	{"default not in the enum", func(w *world) { w.field(sadl.TypeSpec{Type: w.typeOf("Enum").Name}).Default = "not a symbol" }},
	{"default of a required field", func(w *world) { f := w.field(sadl.TypeSpec{Type: "String"}); f.Default, f.Required = "x", true }},
	{"wrong default of parameter", func(w *world) { w.http("GET").Inputs[1].Default = "x" }},
	{"pattern and values", func(w *world) {
		td := w.typeOf("String")
		td.Pattern, td.Values, td.Reference = "a", []string{"a", "b"}, ""
	}},
	{"pattern and values of field", func(w *world) { w.field(sadl.TypeSpec{Type: "String", Pattern: "a", Values: []string{"a"}}) }},
	{"limit of a string", func(w *world) { td := w.typeOf("String"); td.Min = dec(1) }},
	{"size of a number", func(w *world) { n := int64(3); w.typeOf("Int32").MaxSize = &n }},
	{"pattern of a number", func(w *world) { w.typeOf("Float64").Pattern = "a" }},
	{"limit of a struct field", func(w *world) { w.field(sadl.TypeSpec{Type: "Bool", Max: dec(1)}) }},
	{"values of a map", func(w *world) { w.typeOf("Map").Values = []string{"a"} }},
	{"two bodies", func(w *world) {
		h := w.http("PUT")
		h.Inputs = append(h.Inputs, body("zb", "String"), body("zc", "String"))
	}},
	{"body of GET", func(w *world) {
		h := w.http(w.Pick("GET", "DELETE", "HEAD", "OPTIONS"))
		h.Inputs = append(h.Inputs, body("zb", "String"))
	}},
	{"body of 204", func(w *world) {
		h := w.http("GET")
		h.Expected.Status = int32(w.Pick0(204, 304))
		h.Expected.Outputs = []*sadl.HttpParamSpec{body("zb", "String")}
	}},
	{"two output bodies", func(w *world) {
		w.http("GET").Expected.Outputs = []*sadl.HttpParamSpec{body("zb", "String"), body("zc", "Int32")}
	}},
	{"bad path", func(w *world) {
		h := w.http("GET")
		h.Path = w.Pick("/zz/{zid?zq={zq}", "/zz/{zid}/{?zq={zq}", "/zz/{zid}/}?zq={zq}", "/zz/{{zid}}?zq={zq}", "/zz/{zid}/{a/b}?zq={zq}")
	}},
	{"base without slash", func(w *world) { w.s.Base = w.Pick("v1", "http://x") }},
	{"super type not a base type", func(w *world) {
		t := w.typeOf("String").Name
		td := w.Def("String")
		td.TypeSpec = sadl.TypeSpec{Type: t}
		w.s.Types = append(w.s.Types, td)
	}},
	{"undefined super type", func(w *world) {
		td := w.Def("String")
		td.TypeSpec = sadl.TypeSpec{Type: ghost}
		w.s.Types = append(w.s.Types, td)
	}},
	{"bad method", func(w *world) { w.http(w.Pick("FETCH", "GETS", "TRACE")) }},
	{"example of nothing", func(w *world) { w.s.Examples = append(w.s.Examples, &sadl.ExampleDef{Target: ghost, Example: "x"}) }},
	{"example of no field", func(w *world) {
		w.s.Examples = append(w.s.Examples, &sadl.ExampleDef{Target: w.typeOf("Struct").Name + ".nofield", Example: "x"})
	}},
	{"example of no action", func(w *world) {
		w.s.Examples = append(w.s.Examples, &sadl.ExampleDef{Target: w.Pick("NoneRequest", "NoneResponse"), Example: map[string]interface{}{}})
	}},
	{"example of wrong type", func(w *world) {
		w.s.Examples = append(w.s.Examples, &sadl.ExampleDef{Target: w.typeOf(w.Pick("Int32", "Struct", "Bool", "Array")).Name, Example: "x"})
	}},
	{"example of unknown symbol", func(w *world) {
		w.s.Examples = append(w.s.Examples, &sadl.ExampleDef{Target: w.typeOf("Enum").Name, Example: "not a symbol"})
	}},
	{"example of a request without a required input", func(w *world) {
		w.http("GET")
		w.s.Examples = append(w.s.Examples, &sadl.ExampleDef{Target: "ZzActionRequest", Example: map[string]interface{}{"zq": dec(1)}})
	}},
	{"example of a request with a wrong input", func(w *world) {
		w.http("GET")
		w.s.Examples = append(w.s.Examples, &sadl.ExampleDef{Target: "ZzActionRequest", Example: map[string]interface{}{"zid": "a", "zq": "x"}})
	}},
	{"example of a request that is no object", func(w *world) {
		w.http("GET")
		w.s.Examples = append(w.s.Examples, &sadl.ExampleDef{Target: "ZzActionRequest", Example: "x"})
	}},
	{"example of a response without expectation", func(w *world) {
		w.http("GET").Expected = nil
		w.s.Examples = append(w.s.Examples, &sadl.ExampleDef{Target: "ZzActionResponse", Example: map[string]interface{}{"a": "b"}})
	}},
	{"example of a response with wrong items", func(w *world) {
		h := w.http("GET")
		b := body("zb", "Array")
		b.Items = "Int32"
		h.Expected.Outputs = []*sadl.HttpParamSpec{b}
		w.s.Examples = append(w.s.Examples, &sadl.ExampleDef{Target: "ZzActionResponse", Example: map[string]interface{}{"zb": []interface{}{"x"}}})
	}},
	{"example of a response without a required output", func(w *world) {
		h := w.http("GET")
		h.Expected.Outputs = []*sadl.HttpParamSpec{body("zb", "String")}
		w.s.Examples = append(w.s.Examples, &sadl.ExampleDef{Target: "ZzActionResponse", Example: map[string]interface{}{}})
	}},
	{"empty union", func(w *world) { w.typeOf("Union").Variants = nil }},
}

// statements that no source may contain
var bad = []string{"typ Foo9 String", "Foo9", "type", "type Foo9", "type 9 String", "type Foo9 String String", "type Foo9 String pattern=\"x\"", "type Foo9 String (pattern)", "type Foo9 String (pattern=x)",
	"type Foo9 String (minsize=\"a\")", "type Foo9 String (minsize=1.5)", "type Foo9 String (values=\"a\")", "type Foo9 String (values=[a])", "type Foo9 String (unknown=1)", "type Foo9 String (required)", "type Foo9 Int32 (min=\"1\")",
	"type Foo9 Int32 (min)", "type Foo9 Array<String,String>", "type Foo9 Array<>", "type Foo9 Map<String>", "type Foo9 Map<String,String,String>", "type Foo9 String<String>", "type Foo9 UnitValue<Decimal>", "type Foo9 Union",
	"type Foo9 Union<>", "type Foo9 Struct { a }", "type Foo9 Struct { a String b String }", "type Foo9 Struct { a String 5 }", "type Foo9 Struct { \"a\" String }", "type Foo9 Struct { a String (x) }", "type Foo9 Enum { 1 }", "type Foo9 Enum { \"A\" }",
	"type Foo9 Enum { A = 1 }", "5", "\"text\"", "}", "{", ")", "( )", "= 3", "name", "name 5", "namespace", "namespace 7", "version", "version {", "base", "base foo", "base 5", "example", "example Foo9x", "example Foo9x {", "example String", "example String foo",
	"example String { \"a\" }", "example Any { a: 1 }", "example Any { \"a\": }", "example Any { \"a\" 1 }", "example Any { 5 }", "example Any [ 1", "example Any [ : ]", "http", "http GET", "http GET {\n}", "http GET \"/a\"", "http 5 \"/a\" {\n}",
	"http GET \"/a9\" (action=a9) {\n expect\n}", "http GET \"/a9\" (action=a9) {\n expect foo\n}", "http GET \"/a9\" (action=a9) {\n expect 200\n expect 201\n}", "http GET \"/a9\" (action=a9) {\n except\n}", "http GET \"/a9\" (action=a9) {\n except 404\n}",
	"http GET \"/a9\" (action=a9) {\n 5\n}", "http GET \"/a9\" (action=a9) {\n expect 200 {\n  expect 200\n }\n}", "http GET \"/a9\" (action=a9) {\n expect 200 {\n  except 404 X\n }\n}", "http GET \"/a9\" (action=\"a9\") {\n}", "http GET \"/a9\" (action) {\n}",
	"http GET \"/a9\" (action=a9) {\n a String (header=X)\n}", "http GET \"/a9\" (action=a9) {\n a String (header=\"X\") 7\n}", "http GET \"/a9\" (action=a9) {\n} 7", "http GET \"/{a9}\" {\n a9 String\n}", "operation", "operation a9", "operation a9 {", "operation a9 { inputs }", "operation a9 { inputs {",
	"operation a9 { inputs { a } }", "operation a9 { inputs { a String", "operation a9 { inputs { a String (", "operation a9 { inputs { a String (what) } }", "operation a9 { outputs { a } }", "operation a9 { outputs { 5 } }", "operation a9 { outputs {", "operation a9 { exceptions { 5 } }", "operation a9 { exceptions {",
	"operation a9 { exceptions", "operation a9 { what { } }", "operation a9 { 5 }", "operation a9 { \"a\" }", "operation a9 (what=5) { }", "include", "include foo", "include \"/no/such/file.sadl\"", "x_anno foo", "x_anno \"a\" \"b\"", "x_anno 5", "type Foo9 String ; 5", "type Foo9 \"String\"", "\u00a7", "type Foo9 String \u00a7", "type Foo9 \u00a7 String"}

var open = map[byte]byte{'{': '}', '(': ')', '[': ']', '<': '>'}

// brackets gives the positions of the brackets of a source, outside of strings and comments.
func brackets(s string) (pos []int, depth []int) {
	depth = make([]int, len(s)+1)
	d := 0
	for i := 0; i < len(s); i++ {
		depth[i] = d
		switch c := s[i]; {
		case c == '"':
			for i++; i < len(s) && s[i] != '"'; i++ {
				depth[i] = -1
				if s[i] == '\\' {
					i++
					depth[i] = -1
				}
			}
			depth[i] = -1
		case strings.HasPrefix(s[i:], "//"):
			for i++; i < len(s) && s[i] != '\n'; i++ {
				depth[i] = -1
			}
			depth[i] = -1
		case strings.HasPrefix(s[i:], "/*"):
			e := i + 2 + strings.Index(s[i+2:], "*/") + 1
			for i++; i <= e; i++ {
				depth[i] = -1
			}
			i--
		case open[c] != 0:
			pos = append(pos, i)
			d++
		case c == '}' || c == ')' || c == ']' || c == '>':
			pos = append(pos, i)
			d--
		}
	}
	depth[len(s)] = d
	return
}

func main() {
	mon.Main(mon.Spec{Prop: "C22",
		Rule:        "valid models broken in one known way (an undefined name, a duplicate, a wrong default or example, an option or body that is not allowed ...), valid sources cut inside a bracket, with a bracket removed, added or changed, or with a malformed statement added: the parser has to return an error and no model; the valid source is accepted first; non-trivial = distinct invalid source",
		Assumptions: []string{"the tokenizer is the stand-in in shim/scanner"},
		MinEvents:   map[string]int{"rejected": 1000, "bracket": 200, "cut": 200, "statement": 200}},
		func(r *mon.Run) {
			reject := func(kind, what, text string) {
				r.Note(text)
				m, err := sadl.ParseSadlString(text, sadl.NewData())
				r.Event(kind)
				r.Event("rejected")
				r.Observe(text, true)
				if err == nil || m != nil {
					r.Failf("accepted "+what, "source with %s was accepted (model %v, error %v)\n%s", what, m != nil, err, text)
				}
				r.Sample(map[string]string{"broken by": what, "source": text})
			}
			r.Cases("semantic", r.Scale(3000, 40000), func(i int, rnd *mon.Rand) {
				g, s := src.Schema(rnd)
				w := &world{g, s}
				c := corruptions[i%len(corruptions)]
				c.f(w)
				text, _ := src.Write(rnd, s, rnd.P(30))
				r.Event("broken: " + c.name)
				reject("semantic", c.name, text)
			})
			r.Cases("syntax", r.Scale(700, 10000), func(i int, rnd *mon.Rand) {
				_, s := src.Schema(rnd)
				text, _ := src.Write(rnd, s, rnd.P(30))
				if _, err := sadl.ParseSadlString(text, sadl.NewData()); err != nil {
					r.Failf("rejected", "valid source was rejected: %v\n%s", err, text)
					return
				}
				pos, depth := brackets(text)
				if len(pos) == 0 {
					return
				}
				for k := 0; k < 3; k++ {
					p := pos[rnd.Intn(len(pos))]
					reject("bracket", "a bracket removed", text[:p]+text[p+1:])
					c := text[p : p+1]
					reject("bracket", "a bracket doubled", text[:p]+c+text[p:])
					o := rnd.Pick("{", "}", "(", ")", "[", "]", "<", ">")
					if o != c {
						reject("bracket", "a bracket changed", text[:p]+o+text[p+1:])
					}
				}
				for k := 0; k < 6; k++ {
					p := rnd.Intn(len(text) + 1)
					if depth[p] > 0 {
						reject("cut", "the end missing", text[:p])
					}
				}
				// a malformed statement between two lines outside of any bracket
				var at []int
				for j := 0; j < len(text); j++ {
					if text[j] == '\n' && depth[j] == 0 {
						at = append(at, j+1)
					}
				}
				if len(at) > 0 {
					for k := 0; k < 2; k++ {
						p := at[rnd.Intn(len(at))]
						st := bad[(2*i+k)%len(bad)]
						reject("statement", "malformed statement "+st, text[:p]+"\n"+st+"\n"+text[p:])
					}
				}
			})
			r.Once("statements", func() {
				for _, st := range bad {
					for _, t := range []string{st, st + "\n", "name x\n" + st + "\n", "name x\n" + st} {
						reject("statement", "malformed statement "+st, t)
					}
				}
			})
		})
}
