// C01: value validation decides conformance exactly.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/boynton/sadl"

	"verif/gen"
	"verif/mon"
	"verif/ref"
)

func main() {
	mon.Main(mon.Spec{Prop: "C01",
		Rule:        "random models over all base types with constraints; per model, values generated conforming or perturbed at/around every boundary; verdict of Model.Validate / ValidateAgainstTypeSpec compared with an independent reference validator; non-trivial = structured or constrained type, distinct (type,value) text",
		Assumptions: []string{"values in the representation the parser produces: bool, string, Decimal, list, map"},
		MinEvents:   map[string]int{"verdict accept": 1000, "verdict reject": 1000, "one fault": 1000}},
		func(r *mon.Run) {
			o := gen.Opts{Constraints: true, FieldCons: true, Sizes: true, InlineEnum: true, InlineStruct: true, InlineUnion: true, Recursive: true, NamedItems: true, MapKeyNamed: true, MapKeyText: true, EmptyStruct: true,
				FieldKinds: []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any", "Array", "Map", "UnitValue"}}
			r.Cases("model", r.Scale(4000, 60000), func(i int, rnd *mon.Rand) {
				g := gen.New(rnd, o)
				s := g.Types()
				m, err := sadl.NewModel(s)
				if err != nil {
					r.Failf("newmodel", "NewModel rejected a well-formed schema: %v\n%s", err, mon.JSON(s))
					return
				}
				types := ref.TypesOf(s)
				before := sadl.Pretty(m)
				for _, td := range s.Types {
					for k := 0; k < 3; k++ { // a conforming value with one fault
						v := g.Value(&td.TypeSpec, 0, 0)
						if k == 0 {
							v = long(g, v)
						}
						check(r, m, types, s, td.Name, &td.TypeSpec, v)
						if t, ok := v.(string); ok { // the top counts as well
							f, _ := fault(g, []interface{}{t})
							check(r, m, types, s, td.Name, &td.TypeSpec, f.([]interface{})[0])
						}
						if v, ok := fault(g, v); ok {
							r.Event("one fault")
							check(r, m, types, s, td.Name, &td.TypeSpec, v)
						}
					}
					for k := 0; k < 6; k++ {
						noise := []int{0, 0, 10, 30, 60, 90}[k]
						v := g.Value(&td.TypeSpec, noise, 0)
						if k%2 == 1 && g.P(30) {
							v = wide(g, v)
						}
						check(r, m, types, s, td.Name, &td.TypeSpec, v)
						if k == 5 && len(s.Types) > 1 { // a value of another type
							o := s.Types[g.Intn(len(s.Types))]
							check(r, m, types, s, td.Name, &td.TypeSpec, g.Value(&o.TypeSpec, 0, 0))
						}
					}
				}
				for _, b := range []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Timestamp", "UUID", "Any", "Bytes"} {
					ts := &sadl.TypeSpec{Type: b}
					check(r, m, types, s, b, ts, g.Value(ts, 50, 0))
				}
				ts := sadl.Timestamp{}
				for _, x := range []struct {
					t string
					v interface{}
					w bool
				}{{"Timestamp", ts, true}, {"Timestamp", &ts, true}, {"UUID", sadl.ParseUUID("1ce437b0-1dd2-11b2-bc26-003ee1be85f9"), true}, {"Bool", &ts, false}, {"String", sadl.NewDecimal(1), false}, {"Int32", "1", false}, {"Int32", true, false}, {"Decimal", "1.5", false}} {
					r.Observe(x.t+fmt.Sprintf("%T", x.v), true)
					if e := m.Validate("", x.t, x.v); (e == nil) != x.w {
						r.Failf("typed-verdict", "type %s value %v (%T): expected conforms=%v, got %v", x.t, x.v, x.v, x.w, e)
					}
				}
				if err := m.Validate("", "NoSuchType", "x"); err == nil {
					r.Fail("undefined-type", "a value validated against an undefined type")
				}
				if after := sadl.Pretty(m); after != before {
					r.Failf("mutation", "validation changed the model\nbefore %s\nafter %s", before, after)
				}
			})
		})
}

// long repeats the items of some lists.
func long(g *gen.G, v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		if len(x) > 0 && g.P(60) {
			n := g.Range(len(x), 40)
			for i := 0; len(x) < n; i++ {
				x = append(x, x[i])
			}
			return x
		}
		for i := range x {
			x[i] = long(g, x[i])
		}
		return x
	case map[string]interface{}:
		for _, k := range keys(x) {
			x[k] = long(g, x[k])
		}
	}
	return v
}

// fault replaces one node below the top by something else; the last item of a list more often than the others.
// The rest is shared with v.
func fault(g *gen.G, v interface{}) (interface{}, bool) {
	junk := func(old interface{}) interface{} {
		if s, ok := old.(string); ok && s != "" && g.P(60) { // nearly the same text
			i := g.Intn(len(s))
			switch g.Intn(5) {
			case 0:
				return s[:i] + strings.ToUpper(s[i:])
			case 1:
				return strings.ToLower(s)
			case 2:
				return s[:i] + s[i+1:]
			case 3:
				return g.Pick(s+" ", " "+s, s+"\n")
			}
			return s[:i] + s[i:i+1] + s[i:]
		}
		if g.P(20) {
			return nil
		}
		return g.Value(&sadl.TypeSpec{Type: g.Pick("Bool", "Int8", "Float64", "String", "Any", "Timestamp")}, 20, 0)
	}
	switch x := v.(type) {
	case []interface{}:
		if len(x) == 0 {
			return v, false
		}
		i := g.Intn(len(x))
		if g.P(40) {
			i = len(x) - 1
		}
		y := append([]interface{}{}, x...)
		if sub, ok := fault(g, x[i]); ok && g.P(50) {
			y[i] = sub
		} else {
			y[i] = junk(x[i])
		}
		return y, true
	case map[string]interface{}:
		ks := keys(x)
		if len(ks) == 0 {
			return v, false
		}
		k := ks[g.Intn(len(ks))]
		y := map[string]interface{}{}
		for _, n := range ks {
			y[n] = x[n]
		}
		if sub, ok := fault(g, x[k]); ok && g.P(50) {
			y[k] = sub
		} else if g.P(20) { // another name or key
			delete(y, k)
			y[g.Pick(k+"x", k+" ", " "+k, "_", "zz")] = x[k]
		} else {
			y[k] = junk(x[k])
		}
		return y, true
	}
	return v, false
}

func keys(x map[string]interface{}) []string {
	ks := make([]string, 0, len(x))
	for k := range x {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// wide replaces letters of some strings in v by characters of several bytes: sizes are in bytes.
func wide(g *gen.G, v interface{}) interface{} {
	switch x := v.(type) {
	case string:
		if x != "" && g.P(40) {
			i := g.Intn(len(x))
			if c := g.Pick("\u00e9", "\u65e5", "\U0001F600"); g.P(30) || i+len(c) > len(x) {
				return x[:i] + c + x[i+1:]
			} else {
				return x[:i] + c + x[i+len(c):]
			}
		}
	case *string:
		s := wide(g, *x).(string)
		return &s
	case []interface{}:
		for i := range x {
			x[i] = wide(g, x[i])
		}
	case map[string]interface{}:
		for _, k := range keys(x) {
			x[k] = wide(g, x[k])
		}
	}
	return v
}

func check(r *mon.Run, m *sadl.Model, types ref.Types, s *sadl.Schema, name string, ts *sadl.TypeSpec, v interface{}) {
	want := types.Conforms(ts, v)
	r.Note(fmt.Sprintf("type %s = %s\nvalue %s", name, mon.JSON(ts), mon.JSON(v)))
	e1 := m.Validate("", name, v)
	e2 := m.ValidateAgainstTypeSpec("ctx", ts, v)
	key := fmt.Sprintf("%s|%s|%s", ts.Type, mon.JSON(ts), mon.JSON(v))
	r.Observe(key, true)
	r.Event("kind " + ts.Type)
	if want {
		r.Event("verdict accept")
	} else {
		r.Event("verdict reject")
	}
	if (e1 == nil) != want || (e2 == nil) != want {
		r.Failf("verdict", "type %s: expected conforms=%v, Validate said %v, ValidateAgainstTypeSpec said %v\nvalue: %s\ntype: %s\nschema: %s", name, want, e1, e2, mon.JSON(v), mon.JSON(ts), mon.JSON(s))
	}
	r.Sample(map[string]interface{}{"type": ts, "value": v, "conforms": want})
}
