// C03: model construction rejects ambiguous names and resolves every name to its own definition.
package main

import (
	"fmt"
	"strings"

	"github.com/boynton/sadl"

	"verif/gen"
	"verif/mon"
)

var base = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp",
	"UnitValue", "UUID", "Array", "Map", "Struct", "Enum", "Union", "Any"}

func main() {
	mon.Main(mon.Spec{Prop: "C03",
		Rule:      "random schemas with types and http actions; construction verdict, lookup results and example-target resolution compared with a name table computed from the schema; then one duplicate (type, action, or base-type shadow) is injected at a random position; non-trivial = distinct schema/target",
		MinEvents: map[string]int{"schema": 500, "duplicate rejected": 500, "target resolved": 1000, "target rejected": 1000}},
		func(r *mon.Run) {
			r.Cases("schema", r.Scale(4000, 60000), func(i int, rnd *mon.Rand) { one(r, rnd) })
		})
}

func one(r *mon.Run, rnd *mon.Rand) {
	g := gen.New(rnd, gen.Opts{InlineEnum: true, InlineStruct: true, InlineUnion: true, Constraints: true, NamedItems: true, Comments: true, Annotations: true, MinTypes: 1, MaxTypes: 10})
	s := g.Types()
	g.Http(gen.HttpOpts{Query: true, Headers: true, OutHeaders: true, Exceptions: true, NoContent: true, Methods: []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}})
	for _, h := range s.Http {
		if g.P(10) {
			h.Expected = nil
		}
	}
	r.Note(mon.JSON(s))
	text := mon.JSON(s)
	m, err := sadl.NewModel(s)
	r.Observe(text, len(s.Types)+len(s.Http) > 1)
	r.Event("schema")
	if err != nil {
		r.Failf("rejected", "NewModel rejected a schema with distinct names: %v\n%s", err, text)
		return
	}
	if mon.JSON(m.Schema) != text {
		r.Failf("content", "the model's schema differs from the one it was made of\n%s\n%s", text, mon.JSON(m.Schema))
	}
	for _, td := range s.Types {
		if f := m.FindType(td.Name); f != td {
			r.Failf("findtype", "FindType(%q) = %v", td.Name, f)
		}
		for _, bad := range []string{td.Name + "x", strings.ToLower(td.Name), " " + td.Name, ""} {
			if f := m.FindType(bad); f != nil {
				r.Failf("findtype-bogus", "FindType(%q) = %v", bad, mon.JSON(f))
			}
		}
	}
	for _, b := range base {
		f := m.FindType(b)
		if f == nil || f.Name != b || f.Type != b || len(f.Fields) != 0 || f.Min != nil || f.Max != nil {
			r.Failf("findtype-base", "FindType(%q) = %v", b, mon.JSON(f))
		}
	}
	for _, h := range s.Http {
		if f := m.FindHttp(h.Name); f != h {
			r.Failf("findhttp", "FindHttp(%q) = %v", h.Name, f)
		}
		if f := m.FindHttp(sadl.Capitalize(h.Name)); f != nil {
			r.Failf("findhttp-bogus", "FindHttp(%q) = %v", sadl.Capitalize(h.Name), f)
		}
	}
	targets(r, g, s, m)
	if mon.JSON(m.Schema) != text {
		r.Failf("mutation", "looking names up changed the model")
	}
	for k := 0; k < 3; k++ {
		dup(r, g, s)
	}
}

// dup injects one duplicate definition: construction must fail.
func dup(r *mon.Run, g *gen.G, s *sadl.Schema) {
	c := *s
	c.Types = append([]*sadl.TypeDef{}, s.Types...)
	c.Http = append([]*sadl.HttpDef{}, s.Http...)
	what := ""
	switch k := g.Intn(3); {
	case k == 0 && len(c.Types) > 0:
		src := c.Types[g.Intn(len(c.Types))]
		td := &sadl.TypeDef{Name: src.Name, TypeSpec: sadl.TypeSpec{Type: g.Pick("String", "Int32", src.Type)}}
		i := g.Intn(len(c.Types) + 1)
		c.Types = append(c.Types[:i:i], append([]*sadl.TypeDef{td}, c.Types[i:]...)...)
		what = "type " + td.Name
	case k == 1 && len(c.Http) > 0:
		src := c.Http[g.Intn(len(c.Http))]
		h := &sadl.HttpDef{Name: src.Name, Method: "GET", Path: "/other"}
		i := g.Intn(len(c.Http) + 1)
		c.Http = append(c.Http[:i:i], append([]*sadl.HttpDef{h}, c.Http[i:]...)...)
		what = "action " + h.Name
	default:
		b := base[g.Intn(len(base))]
		td := &sadl.TypeDef{Name: b, TypeSpec: sadl.TypeSpec{Type: g.Pick("String", "Int32", b)}}
		i := g.Intn(len(c.Types) + 1)
		c.Types = append(c.Types[:i:i], append([]*sadl.TypeDef{td}, c.Types[i:]...)...)
		what = "base type " + b
	}
	r.Observe("dup "+what+mon.JSON(&c), true)
	m, err := sadl.NewModel(&c)
	if err == nil || m != nil {
		r.Failf("duplicate-accepted", "NewModel accepted a second definition of %s\n%s", what, mon.JSON(&c))
		return
	}
	r.Event("duplicate rejected")
}

func targets(r *mon.Run, g *gen.G, s *sadl.Schema, m *sadl.Model) {
	expect := func(target string, want *sadl.TypeSpec) {
		r.Note(target + "\n" + mon.JSON(s))
		ts, err := m.FindExampleType(&sadl.ExampleDef{Target: target, Example: "x"})
		r.Observe("target "+target+mon.JSON(want), true)
		if err != nil || ts == nil || mon.JSON(ts) != mon.JSON(want) {
			r.Failf("target", "example target %q resolved to %v (%v), want %s\n%s", target, mon.JSON(ts), err, mon.JSON(want), mon.JSON(s))
			return
		}
		r.Event("target resolved")
	}
	reject := func(target string) {
		ts, err := m.FindExampleType(&sadl.ExampleDef{Target: target, Example: "x"})
		r.Observe("reject "+target, true)
		if err == nil {
			r.Failf("target-accepted", "undefined example target %q resolved to %v\n%s", target, mon.JSON(ts), mon.JSON(s))
			return
		}
		r.Event("target rejected")
	}
	var walk func(prefix string, ts *sadl.TypeSpec)
	walk = func(prefix string, ts *sadl.TypeSpec) {
		expect(prefix, ts)
		if ts.Type == "Struct" {
			for _, f := range ts.Fields {
				walk(prefix+"."+f.Name, &f.TypeSpec)
			}
			reject(prefix + ".nosuch")
		} else if base0(ts.Type) {
			reject(prefix + ".x")
		}
	}
	for _, td := range s.Types {
		walk(td.Name, &td.TypeSpec)
		reject(td.Name + "Zz")
	}
	for _, h := range s.Http {
		n := sadl.Capitalize(h.Name)
		for _, in := range h.Inputs {
			expect(n+"Request."+in.Name, &in.TypeSpec)
		}
		reject(n + "Request.nosuch")
		reject(n + "Response.nosuch")
		if h.Expected != nil {
			for _, out := range h.Expected.Outputs {
				expect(n+"Response."+out.Name, &out.TypeSpec)
			}
			for _, t := range []string{n + "Request", n + "Response"} {
				if _, err := m.FindExampleType(&sadl.ExampleDef{Target: t}); err != nil {
					r.Failf("target-action", "example target %q (a declared action's message) is rejected: %v", t, err)
				}
			}
		}
	}
	reject("NoSuchRequest")
	reject("NoSuchResponse.x")
	reject(fmt.Sprintf("Undefined%d", g.Intn(1000)))
}

func base0(t string) bool {
	for _, b := range base {
		if b == t {
			return true
		}
	}
	return false
}
