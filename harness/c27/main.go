// C27: the Smithy import keeps the meaning of the document, and never crashes.
package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/smithy"

	"verif/mon"
	"verif/oas"
	"verif/ref"
	"verif/smi"
)

func main() {
	mon.Main(mon.Spec{Prop: "C27",
		Rule:        "random Smithy JSON AST documents generated together with the SADL model they stand for, in one or several files or a directory, as AST and as text form, imported and compared node by node; documents with something SADL cannot hold, or with a missing definition, must be refused; documents with random nodes replaced or removed must give a model without loose ends or an error, never a crash; nothing is printed and the configuration is unchanged; non-trivial = distinct document",
		Assumptions: []string{"github.com/boynton/smithy is replaced by a stand-in (shim/smithy): JSON AST, and a text form with ordered objects and decimals for trait values", "members of an http input or output are all bound or all unbound", "constraints of members only on prelude types"},
		MinEvents: map[string]int{"document": 1000, "type": 2000, "feature:http": 1000, "feature:operation": 300, "feature:example": 300, "feature:whole body": 200, "feature:shared body": 50, "feature:input used as a type": 50, "feature:map": 100,
			"feature:union": 100, "feature:enum": 100, "feature:list": 200, "feature:range": 200, "feature:length": 200, "feature:query": 200, "feature:header": 200, "feature:error without status": 100, "feature:UUID": 50, "feature:values": 50, "refused": 500, "damaged document": 1000, "several files": 100, "directory": 50, "idl": 200}},
		func(r *mon.Run) {
			r.Cases("import", r.Scale(2500, 50000), func(i int, g *mon.Rand) { one(r, g, i) })
		})
}

const idlHeader = "//smithy stand-in, namespace x\n"

func load(r *mon.Run, paths []string, conf *sadl.Data) (m *sadl.Model, err error) {
	before := mon.JSON(conf)
	out := mon.Capture(func() { m, err = smithy.Import(paths, conf) })
	if out != "" {
		r.Failf("stdout", "importing printed %q", out)
	}
	if mon.JSON(conf) != before {
		r.Failf("conf", "importing changed the configuration %s to %s", before, mon.JSON(conf))
	}
	return m, err
}

func canon(s *sadl.Schema) interface{} {
	c := *s
	c.Types = append([]*sadl.TypeDef{}, s.Types...)
	sort.Slice(c.Types, func(i, j int) bool { return c.Types[i].Name < c.Types[j].Name })
	c.Http = append([]*sadl.HttpDef{}, s.Http...)
	sort.Slice(c.Http, func(i, j int) bool { return c.Http[i].Name < c.Http[j].Name })
	c.Operations = append([]*sadl.OperationDef{}, s.Operations...)
	sort.Slice(c.Operations, func(i, j int) bool { return c.Operations[i].Name < c.Operations[j].Name })
	c.Examples = append([]*sadl.ExampleDef{}, s.Examples...)
	sort.Slice(c.Examples, func(i, j int) bool {
		return c.Examples[i].Target+"\x00"+c.Examples[i].Name+"\x00"+mon.JSON(c.Examples[i].Example) < c.Examples[j].Target+"\x00"+c.Examples[j].Name+"\x00"+mon.JSON(c.Examples[j].Example)
	})
	return smi.Norm(&c)
}

func one(r *mon.Run, g *mon.Rand, i int) {
	d := &smi.DocGen{Rand: g}
	d.Doc()
	dir := r.Scratch()
	conf := sadl.NewData()
	want := d.Want
	if g.P(15) {
		conf.Put("name", "given")
		want.Name = "given"
	}
	if g.P(15) {
		conf.Put("namespace", "given.ns")
		want.Namespace = "given.ns"
	}
	if g.P(15) {
		conf.Put("base", "/v1")
		want.Base = "/v1"
	}
	text := d.Text(d.Shapes, true)
	r.Note(text)
	r.Observe(text, len(want.Types)+len(want.Http)+len(want.Operations) > 1)
	var paths []string
	write := func(name, text string) string {
		f := filepath.Join(dir, name)
		if err := os.WriteFile(f, []byte(text), 0644); err != nil {
			mon.Bug("%v", err)
		}
		paths = append(paths, f)
		return f
	}
	shapes := d.Shapes
	if g.P(15) && d.Service != "" { // another service, and a choice
		shapes = append(append([]smi.KV{}, shapes...), smi.KV{K: "com.other#AnotherService", V: smi.M{"type": "service", "version": "7"}})
		if g.Bool() && len(shapes) > 1 {
			shapes[0], shapes[len(shapes)-1] = shapes[len(shapes)-1], shapes[0]
		}
		conf.Put("service", d.Service)
		r.Event("service chosen")
	}
	switch form := g.Intn(10); {
	case form < 3:
		r.Event("idl")
		if f := write("a.smithy", idlHeader+d.Text(shapes, true)); !smithy.IsValidFile(f) {
			r.Failf("valid", "IsValidFile denies a .smithy file\n%s", text)
		}
	case form < 5 && len(shapes) > 1:
		r.Event("several files")
		k := g.Range(1, len(shapes)-1)
		write("a.json", d.Text(shapes[:k], g.Bool()))
		t2 := d.Text(shapes[k:], true)
		if g.Bool() {
			write("b.json", t2)
		} else {
			write("b.smithy", idlHeader+t2)
		}
		if g.Bool() {
			r.Event("directory")
			write("notes.txt", "not a model")
			paths = []string{dir}
			if g.Bool() { // the name of a directory may end like that of a file
				d2 := filepath.Join(dir, "d.json")
				os.MkdirAll(d2, 0755)
				if g.Bool() {
					for _, f := range []string{"a.json", "b.json", "b.smithy"} {
						os.Rename(filepath.Join(dir, f), filepath.Join(d2, f))
					}
					paths = append(paths[:0], g.Pick(dir, d2))
				}
			}
		}
	default:
		f := write("a.json", d.Text(shapes, true))
		if !smithy.IsValidFile(f) {
			r.Failf("valid", "IsValidFile denies\n%s", text)
		}
	}
	m, err := load(r, paths, conf)
	if err != nil {
		r.Failf("refused", "import refused a document: %v\n%s", err, text)
		return
	}
	r.Event("document")
	r.EventN("type", len(want.Types))
	for k, n := range d.Features {
		r.EventN("feature:"+k, n)
	}
	if i%500 == 0 {
		r.Sample(json.RawMessage(text))
	}
	var diffs []string
	oas.Diff("", canon(want), canon(&m.Schema), nil, &diffs)
	if len(diffs) > 0 {
		sort.Strings(diffs)
		r.Failf("differs", "imported model differs from the document:\n%s\ndocument %s", strings.Join(diffs, "\n"), text)
	}
	if bad := oas.Exact(&m.Schema); bad != nil {
		r.Failf("limit", "imported limits are not the numbers of the document: %v\n%s", bad, text)
	}
	if bad := ref.Open(&m.Schema); bad != nil {
		r.Failf("open", "the imported model has loose ends: %v\n%s", bad, text)
	}
	for _, td := range m.Types {
		if m.FindType(td.Name) != td {
			r.Failf("index", "type %s is not found in the imported model", td.Name)
		}
	}
	for _, ex := range m.Examples {
		if _, err := m.FindExampleType(ex); err != nil {
			r.Failf("example", "imported example has no target: %v\n%s", err, text)
		}
	}
	for _, p := range paths {
		if p != dir {
			os.Remove(p)
		}
	}
	f := filepath.Join(dir, "x"+g.Pick(".json", ".smithy"))
	try := func(v interface{}) (*sadl.Model, error) {
		t := mon.JSON(v)
		r.Note(t)
		if strings.HasSuffix(f, ".smithy") {
			t = idlHeader + t
		}
		if err := os.WriteFile(f, []byte(t), 0644); err != nil {
			mon.Bug("%v", err)
		}
		return load(r, []string{f}, sadl.NewData())
	}
	generic := func() map[string]interface{} {
		var v map[string]interface{}
		if err := json.Unmarshal([]byte(text), &v); err != nil {
			mon.Bug("%v", err)
		}
		return v
	}
	refused := func(what string, conf *sadl.Data, paths ...string) {
		r.Event("refused")
		r.Event("refused: " + what)
		if _, err := load(r, paths, conf); err == nil {
			r.Failf("not-refused", "%s was imported without an error\n%s", what, text)
		}
	}
	switch k := g.Intn(8); {
	case k == 0:
		c := sadl.NewData()
		c.Put("service", g.Pick("com.acme#NoService", "NoService", d.NS+"#", "com.other#"+d.Service))
		refused("a service that is not there", c, write("s.json", text))
	case k == 1 && len(d.Shapes) > 0:
		refused("a shape in two files", sadl.NewData(), write("s.json", text), write("s2.json", d.Text(d.Shapes[g.Intn(len(d.Shapes)):][:1], false)))
	case k == 2:
		n := g.Intn(len(text) - 1)
		refused("a file that ends early", sadl.NewData(), write("s.json", text[:n]))
	case k == 3:
		n := g.Intn(len(text) - 1)
		refused("a file that ends early beside another", sadl.NewData(), write("s.json", text), write("s2.json", text[:n]))
	case k == 4:
		refused("a missing file", sadl.NewData(), write("s.json", text), filepath.Join(dir, g.Pick("nothing.json", "nothing.smithy", "nodir")))
	case k == 5:
		d2 := filepath.Join(dir, "sub")
		os.MkdirAll(d2, 0755)
		write("sub/s.json", text)
		write("sub/s2.json", g.Pick("{", "", "[]", "nothing"))
		refused("a damaged file in a directory", sadl.NewData(), d2)
	case k == 6:
		refused("a file of another kind", sadl.NewData(), write(g.Pick("notes.txt", "smithy", "s.yaml"), text))
	}
	for _, p := range paths {
		if p != dir {
			os.Remove(p)
		}
	}
	for k := 0; k < 2; k++ {
		bad := generic()
		if what := spoil(g, d, bad["shapes"].(map[string]interface{})); what != "" {
			r.Event("refused")
			if _, err := try(bad); err == nil {
				r.Failf("not-refused", "%s was imported without an error\n%s", what, mon.JSON(bad))
			}
		}
	}
	for k := 0; k < 3; k++ {
		bad := generic()
		for n := g.Range(1, 3); n > 0; n-- {
			damage(g, bad)
		}
		r.Event("damaged document")
		if m, err := try(bad); err == nil {
			if open := ref.Open(&m.Schema); open != nil {
				r.Failf("open", "the model imported from a damaged document has loose ends: %v\n%s", open, mon.JSON(bad))
			}
		}
	}
}

func spoil(g *mon.Rand, d *smi.DocGen, shapes map[string]interface{}) string {
	add := func(shape smi.M) { shapes["com.acme#Spoiled"] = shape }
	switch g.Intn(15) {
	case 0:
		add(smi.M{"type": "intEnum", "members": smi.M{"A": smi.M{"target": "smithy.api#Unit", "traits": smi.M{"smithy.api#enumValue": 1}}}})
		return "an intEnum"
	case 1:
		add(smi.M{"type": g.Pick("tensor", "", "Structure")})
		return "an unknown type of shape"
	case 2:
		add(smi.M{"type": "structure", "members": smi.M{"a": smi.M{"target": "com.acme#Missing"}}})
		return "a member of an undefined type"
	case 3:
		add(smi.M{"type": "list", "member": smi.M{"target": "com.acme#Missing"}})
		return "a list of an undefined type"
	case 4:
		add(smi.M{"type": g.Pick("list", "set", "map")})
		return "a collection without member"
	case 5:
		add(smi.M{"type": "map", "key": smi.M{"target": "smithy.api#String"}})
		return "a map without value"
	case 6:
		shapes["com.acme#Spoiled"] = nil
		return "a null shape"
	case 7:
		add(smi.M{"type": "operation", g.Pick("input", "output"): smi.M{"target": "com.acme#Missing"}})
		return "an undefined input or output"
	case 8:
		add(smi.M{"type": "operation", "traits": smi.M{"smithy.api#http": smi.M{"method": "GET", "uri": "/s", "code": 200}}, g.Pick("input", "output"): smi.M{"target": "com.acme#Missing"}})
		return "an undefined input or output of an http operation"
	case 9:
		op := smi.M{"type": "operation", "errors": smi.L{smi.M{"target": g.Pick("com.acme#Missing", "smithy.api#String")}}}
		if g.Bool() {
			op["traits"] = smi.M{"smithy.api#http": smi.M{"method": "GET", "uri": "/s"}}
		}
		add(op)
		return "an error that is not a structure"
	case 10:
		tr, in := "httpResponseCode", "output"
		if g.Bool() {
			tr, in = g.Pick("httpQueryParams", "httpPrefixHeaders"), "input"
		}
		shapes["com.acme#SpoiledIO"] = smi.M{"type": "structure", "members": smi.M{"m": smi.M{"target": "smithy.api#Integer", "traits": smi.M{"smithy.api#" + tr: smi.M{}}}}}
		add(smi.M{"type": "operation", "traits": smi.M{"smithy.api#http": smi.M{"method": "GET", "uri": "/s", "code": 200}}, in: smi.M{"target": "com.acme#SpoiledIO"}})
		return "a " + tr + " binding"
	case 11:
		if d.Service == "" {
			return ""
		}
		add(smi.M{"type": "service", "version": "1"})
		return "a second service"
	case 12:
		add(smi.M{"type": "operation"})
		shapes["com.acme#Spoiled2"] = smi.M{"type": "structure", "members": smi.M{"m": smi.M{"target": "com.acme#Spoiled"}}}
		return "a member that is an operation"
	case 13:
		add(smi.M{"type": "string"})
		shapes["org.third#Spoiled"] = smi.M{"type": "integer"}
		return "two types with the same name"
	case 14:
		add(smi.M{"type": g.Pick("structure", "union", "enum"), "members": smi.M{"m": nil}})
		return "a null member"
	}
	return ""
}

// damage replaces or removes a random node
func damage(g *mon.Rand, v interface{}) {
	for depth := 0; ; depth++ {
		switch t := v.(type) {
		case map[string]interface{}:
			if len(t) == 0 {
				return
			}
			keys := make([]string, 0, len(t))
			for k := range t {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			k := g.PickS(keys)
			if depth > 0 && g.P(20) {
				if g.P(40) {
					delete(t, k)
				} else {
					t[k] = junk(g)
				}
				return
			}
			v = t[k]
		case []interface{}:
			if len(t) == 0 {
				return
			}
			k := g.Intn(len(t))
			if g.P(30) {
				t[k] = junk(g)
				return
			}
			v = t[k]
		default:
			return
		}
	}
}

func junk(g *mon.Rand) interface{} {
	return g.PickS2(nil, "", "x", "smithy.api#Unit", "com.acme#Order", 7.0, -1.5, 1e300, true, false, []interface{}{}, []interface{}{nil}, []interface{}{"a", 1.0}, map[string]interface{}{}, map[string]interface{}{"a": nil}, map[string]interface{}{"min": "x", "max": true})
}
