// C09: the OpenAPI import keeps the meaning of the document, and never crashes.
package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"

	"verif/mon"
	"verif/oas"
)

func main() {
	mon.Main(mon.Spec{Prop: "C09",
		Rule:        "random OpenAPI 3 documents generated together with the SADL model they stand for, written as JSON and YAML files, imported and compared node by node (order aside); the same documents with one unsupported construct must be refused with an error; the same documents with random nodes replaced or removed must give a model or an error, never a crash; non-trivial = distinct document",
		Assumptions: []string{"operations have operationIds; array and map items and union variants are references or scalar types (their inline constraints are not kept)", "limits exact in a float64"},
		MinEvents:   map[string]int{"document": 500, "type": 1000, "action": 1000, "refused": 300, "damaged document": 500, "feature:map": 50, "feature:union": 50, "feature:path level parameters": 50, "feature:exception": 100, "feature:example": 100, "feature:response header": 50, "feature:alias": 20, "feature:shared parameters": 100, "feature:shared responses": 100}},
		func(r *mon.Run) {
			r.Cases("import", r.Scale(2500, 40000), func(i int, g *mon.Rand) { one(r, g, i) })
		})
}

func one(r *mon.Run, g *mon.Rand, i int) {
	d := &oas.DocGen{Rand: g}
	name := g.Pick("spec", "my.api", "x_1")
	doc, want := d.Doc(strings.ReplaceAll(name, ".", "_"))
	dir := r.Scratch()
	ext := g.Pick(".json", ".yaml")
	f := filepath.Join(dir, name+ext)
	load := func(v oas.M) (*sadl.Model, error) {
		text := mon.JSON(v)
		if ext == ".yaml" {
			text = oas.YAML(oas.Norm(v), "")
		}
		r.Note(text)
		if err := os.WriteFile(f, []byte(text), 0644); err != nil {
			mon.Bug("%v", err)
		}
		return openapi.Import([]string{f}, sadl.NewData())
	}
	key := mon.JSON(doc)
	r.Observe(key, len(want.Types)+len(want.Http) > 1)
	m, err := load(doc)
	if err != nil {
		r.Failf("refused", "import refused a document: %v\n%s", err, key)
		return
	}
	if !openapi.IsValidFile(f) {
		r.Failf("valid", "IsValidFile denies %s", key)
	}
	r.Event("document")
	r.EventN("type", len(want.Types))
	r.EventN("action", len(want.Http))
	for k, n := range d.Features {
		r.EventN("feature:"+k, n)
	}
	var diffs []string
	oas.Diff("", oas.Canon(want), oas.Canon(&m.Schema), nil, &diffs)
	if len(diffs) > 0 {
		sort.Strings(diffs)
		r.Failf("differs", "imported model differs from the document:\n%s\ndocument %s", strings.Join(diffs, "\n"), key)
	}
	if bad := oas.Exact(&m.Schema); bad != nil {
		r.Failf("limit", "imported limits are not the numbers of the document: %v\n%s", bad, key)
	}
	for _, td := range m.Types {
		if m.FindType(td.Name) != td {
			r.Failf("index", "type %s is not found in the imported model", td.Name)
		}
	}
	for _, ex := range m.Examples {
		if _, err := m.FindExampleType(ex); err != nil {
			r.Failf("example", "imported example has no target: %v", err)
		}
	}
	if bad, what := spoil(g, doc); bad != nil {
		_, err := load(bad)
		if err == nil {
			r.Failf("not-refused", "%s was imported without an error\n%s", what, mon.JSON(bad))
		}
		r.Event("refused")
	}
	var generic map[string]interface{}
	if err := json.Unmarshal([]byte(key), &generic); err != nil {
		mon.Bug("%v", err)
	}
	for k := 0; k < 2; k++ {
		for n := g.Range(1, 3); n > 0; n-- {
			damage(g, generic)
		}
		load(generic) // any verdict; a crash is reported by the monitor
		r.Event("damaged document")
	}
	// files that are no document at all
	raw := g.Pick("", "null", " ", "~", "1", "[]", "\"text\"", "{}", "[{}]", "true", "{\"a\": null}", "\x00", "{")
	if ext == ".json" && g.Bool() {
		raw = key[:g.Intn(len(key))]
	}
	r.Note(raw)
	if err := os.WriteFile(f, []byte(raw), 0644); err != nil {
		mon.Bug("%v", err)
	}
	if _, err := openapi.Import([]string{f}, sadl.NewData()); err == nil {
		r.Failf("no-document", "%q was imported without an error", raw)
	}
	if openapi.IsValidFile(f) {
		r.Failf("no-document", "%q is taken for a document", raw)
	}
	r.Event("no document")
}

func cp(v interface{}) oas.M { return oas.Norm(v).(map[string]interface{}) }

// spoil adds one construct SADL cannot hold.
func spoil(g *mon.Rand, doc oas.M) (oas.M, string) {
	c := cp(doc)
	paths := c["paths"].(map[string]interface{})
	op := map[string]interface{}{"operationId": "spoiled", "responses": map[string]interface{}{"200": map[string]interface{}{"description": "ok"}}}
	add := func(what string) (oas.M, string) {
		paths["/spoiled"] = map[string]interface{}{g.Pick("get", "put", "post", "delete", "patch"): op}
		return c, what
	}
	param := func(m map[string]interface{}) { op["parameters"] = []interface{}{m} }
	resp := op["responses"].(map[string]interface{})
	schemas := func() map[string]interface{} {
		comp, _ := c["components"].(map[string]interface{})
		if comp == nil {
			comp = map[string]interface{}{}
			c["components"] = comp
		}
		s, _ := comp["schemas"].(map[string]interface{})
		if s == nil {
			s = map[string]interface{}{}
			comp["schemas"] = s
		}
		return s
	}
	str := map[string]interface{}{"type": "string"}
	switch g.Intn(22) {
	case 0:
		param(map[string]interface{}{"in": "cookie", "name": "c", "schema": str})
		return add("a cookie parameter")
	case 1:
		resp["4XX"] = map[string]interface{}{"description": "x"}
		return add("a wildcard exception status")
	case 2:
		resp["404"] = map[string]interface{}{"description": "x", "content": map[string]interface{}{"application/json": map[string]interface{}{"schema": str}}}
		return add("an inline exception type")
	case 3:
		delete(op, "responses")
		return add("an operation without responses")
	case 4:
		param(map[string]interface{}{"in": "query", "name": "q", "schema": map[string]interface{}{"type": "object"}})
		return add("an object parameter")
	case 5:
		param(map[string]interface{}{"in": "query", "name": "q"})
		return add("a parameter without schema")
	case 6:
		schemas()["Odd"] = map[string]interface{}{"type": g.Pick("null", "file", "String", "foo")}
		return c, "an unknown type"
	case 7:
		schemas()["Odd"] = map[string]interface{}{"$ref": "#/components/schemas/NoSuch"}
		return c, "a dangling alias"
	case 8:
		schemas()["OddA"] = map[string]interface{}{"$ref": "#/components/schemas/OddB"}
		schemas()["OddB"] = map[string]interface{}{"$ref": "#/components/schemas/OddA"}
		return c, "a circular alias"
	case 9:
		schemas()[g.Pick("String", "Struct", "Int32", "Any")] = map[string]interface{}{"type": "string"}
		return c, "a type with the name of a base type"
	case 10:
		schemas()["Odd"] = map[string]interface{}{"type": "string", "enum": []interface{}{"a", 1.0}}
		return c, "a string enum with a number"
	case 11:
		param(map[string]interface{}{"in": "path", "name": "nowhere", "schema": str})
		return add("a path parameter that is not in the path")
	case 19: // references to what is not there, or to each other
		what := g.Pick("parameters", "responses", "requestBodies", "headers")
		r := map[string]interface{}{"$ref": "#/components/" + what + "/NoSuch"}
		if g.Bool() {
			schemas()
			comp := c["components"].(map[string]interface{})
			m, _ := comp[what].(map[string]interface{})
			if m == nil {
				m = map[string]interface{}{}
				comp[what] = m
			}
			m["NoSuch"] = map[string]interface{}{"$ref": "#/components/" + what + "/" + g.Pick("NoSuch", "Nowhere")}
		}
		switch what {
		case "parameters":
			param(r)
			if g.Bool() {
				delete(op, "parameters")
				paths["/spoiled"] = map[string]interface{}{"get": op, "parameters": []interface{}{r}}
				return c, "a reference that cannot be resolved in the parameters of a path"
			}
		case "responses":
			resp[g.Pick("200", "404")] = r
		case "requestBodies":
			op["requestBody"] = r
			paths["/spoiled"] = map[string]interface{}{g.Pick("put", "post", "patch"): op}
			return c, "a reference that cannot be resolved for a request body"
		case "headers":
			resp["200"].(map[string]interface{})["headers"] = map[string]interface{}{"ETag": r}
		}
		return add("a reference that cannot be resolved in " + what)
	case 21:
		schemas()["Odd"] = nil
		return c, "a schema without definition"
	case 20:
		param(map[string]interface{}{"in": g.Pick("formData", "body", "matrix"), "name": "q", "schema": str})
		return add("a parameter in another place")
	case 14:
		bad, what := oas.BadSchema(g, false, false)
		schemas()[g.Pick("Odd", "A0", "Zz")] = bad
		return c, what
	case 15:
		bad, what := oas.BadSchema(g, true, false)
		param(map[string]interface{}{"in": g.Pick("query", "header"), "name": "q", "schema": bad})
		return add(what + " in a parameter")
	case 16:
		bad, what := oas.BadSchema(g, false, false)
		op["requestBody"] = map[string]interface{}{"content": map[string]interface{}{"application/json": map[string]interface{}{"schema": bad}}}
		paths["/spoiled"] = map[string]interface{}{g.Pick("put", "post", "patch"): op}
		return c, what + " in a request body"
	case 17:
		bad, what := oas.BadSchema(g, false, false)
		ok := resp["200"].(map[string]interface{})
		if g.Bool() {
			ok["content"] = map[string]interface{}{"application/json": map[string]interface{}{"schema": bad}}
			return add(what + " in a response body")
		}
		ok["headers"] = map[string]interface{}{"X-Odd": map[string]interface{}{"schema": bad}}
		return add(what + " in a response header")
	case 18:
		schemas()[g.Pick("Timestamp", "Decimal")] = map[string]interface{}{"type": g.Pick("object", "array", "boolean", "integer")}
		return c, "another type with the name of a base type"
	case 12:
		delete(c["info"].(map[string]interface{}), g.Pick("title", "version"))
		return c, "no title or version"
	}
	delete(c, g.Pick("openapi", "info", "paths"))
	return c, "a missing section"
}

// damage replaces or removes one random node.
func damage(g *mon.Rand, doc map[string]interface{}) {
	type slot struct {
		m map[string]interface{}
		k string
		a []interface{}
		i int
	}
	var slots []slot
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch t := v.(type) {
		case map[string]interface{}:
			var ks []string
			for k := range t {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				slots = append(slots, slot{m: t, k: k})
				walk(t[k])
			}
		case []interface{}:
			for i := range t {
				slots = append(slots, slot{a: t, i: i})
				walk(t[i])
			}
		}
	}
	walk(doc)
	if len(slots) == 0 {
		return
	}
	s := slots[g.Intn(len(slots))]
	v := g.PickS2(nil, nil, map[string]interface{}{}, []interface{}{}, "x", "", "object", "array", "string", 1.0, true, []interface{}{nil}, map[string]interface{}{"": nil},
		map[string]interface{}{"$ref": "#/components/schemas/Item"}, map[string]interface{}{"$ref": "x"})
	if s.m != nil {
		if g.P(30) {
			delete(s.m, s.k)
		} else {
			s.m[s.k] = v
		}
	} else {
		s.a[s.i] = v
	}
}
