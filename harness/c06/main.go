// C06: type equivalence and the inline-enum refactoring keep the meaning of a model.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/boynton/sadl"

	"verif/gen"
	"verif/mon"
	"verif/ref"
)

func main() {
	mon.Main(mon.Spec{Prop: "C06",
		Rule:        "equivalence: a random type spec against itself, a deep copy, a copy with order-insensitive parts permuted (all equivalent) and copies with exactly one constraint, element, field or item type changed (none equivalent), in both argument orders, directly and by name; refactoring: random models with inline enum fields, with and without pre-existing types of the target names, converted and compared field by field with the original, then values validated against both; non-trivial = distinct type pair / model",
		Assumptions: []string{"no verdict on struct fields in another order, comments or annotations"},
		MinEvents:   map[string]int{"equivalent": 1000, "different": 1000, "enum converted": 500, "conflict reported": 30, "value verdicts compared": 1000}},
		func(r *mon.Run) {
			r.Cases("equiv", r.Scale(3000, 40000), func(i int, g *mon.Rand) { equiv(r, g) })
			r.Cases("inline", r.Scale(3000, 40000), func(i int, g *mon.Rand) { inline(r, g) })
		})
}

func clone(ts *sadl.TypeSpec) *sadl.TypeSpec {
	b, err := json.Marshal(ts)
	if err != nil {
		mon.Bug("clone: %v", err)
	}
	c := &sadl.TypeSpec{}
	if err := json.Unmarshal(b, c); err != nil {
		mon.Bug("clone: %v", err)
	}
	return c
}

func shuffle(g *mon.Rand, ts *sadl.TypeSpec) {
	p := g.Perm(len(ts.Values))
	v := make([]string, len(ts.Values))
	for i := range p {
		v[i] = ts.Values[p[i]]
	}
	if len(v) > 0 {
		ts.Values = v
	}
	p = g.Perm(len(ts.Elements))
	e := make([]*sadl.EnumElementDef, len(ts.Elements))
	for i := range p {
		e[i] = ts.Elements[p[i]]
	}
	if len(e) > 0 {
		ts.Elements = e
	}
	p = g.Perm(len(ts.Variants))
	u := make([]*sadl.UnionVariantDef, len(ts.Variants))
	for i := range p {
		u[i] = ts.Variants[p[i]]
	}
	if len(u) > 0 {
		ts.Variants = u
	}
	for _, f := range ts.Fields {
		shuffle(g, &f.TypeSpec)
	}
}

func i64(v int64) *int64 { return &v }

func bump(g *mon.Rand, p **int64) {
	if *p == nil {
		*p = i64(int64(g.Range(0, 9)))
	} else if g.Bool() {
		*p = nil
	} else {
		*p = i64(**p + []int64{1, 1, -1, 1 << 32, 1 << 40}[g.Intn(5)])
	}
}

// near is another name that looks like s.
func near(g *mon.Rand, s string) string {
	if i := g.Intn(len(s) + 1); i < len(s) && g.P(60) {
		c := s[i : i+1]
		if u := strings.ToUpper(c); u != c {
			return s[:i] + u + s[i+1:]
		} else if l := strings.ToLower(c); l != c {
			return s[:i] + l + s[i+1:]
		}
	}
	return g.Pick(s+"Zz", "zz"+s, s+"_")
}

func bumpD(g *mon.Rand, p **sadl.Decimal) {
	if *p == nil {
		*p, _ = sadl.ParseDecimal(g.Pick("0", "17", "-3.5"))
	} else if g.Bool() {
		*p = nil
	} else {
		d, _ := sadl.ParseDecimal(g.Pick("12345", "0.125", "-99999"))
		if t := (*p).String(); g.Bool() && !strings.ContainsAny(t, "eE") { // by a little
			if strings.Contains(t, ".") {
				t += "1"
			} else {
				t += g.Pick(".5", ".0001", ".000000000001")
			}
			d, _ = sadl.ParseDecimal(t)
		}
		if d.Cmp(&(*p).Float) == 0 {
			d, _ = sadl.ParseDecimal("54321")
		}
		*p = d
	}
}

// change makes exactly one semantic change; "" when it could not.
func change(g *mon.Rand, s *sadl.Schema, ts *sadl.TypeSpec) string {
	switch ts.Type {
	case "String":
		switch g.Intn(5) {
		case 0:
			if ts.Pattern == "" {
				ts.Pattern = "^zz$"
			} else {
				ts.Pattern = g.Pick("", ts.Pattern+"?")
			}
			return "pattern"
		case 1:
			bump(g, &ts.MinSize)
			return "minsize"
		case 2:
			bump(g, &ts.MaxSize)
			return "maxsize"
		case 3:
			if len(ts.Values) == 0 {
				ts.Values = []string{"new"}
			} else if g.Bool() {
				i := g.Intn(len(ts.Values))
				n := near(g, ts.Values[i])
				for _, v := range ts.Values {
					if v == n {
						n = "changed"
					}
				}
				ts.Values[i] = n
			} else {
				ts.Values = append(ts.Values, "more")
			}
			return "values"
		}
		ts.Reference = near(g, ts.Reference)
		return "reference"
	case "UUID":
		ts.Reference = near(g, ts.Reference)
		return "reference"
	case "Bytes":
		if g.Bool() {
			bump(g, &ts.MinSize)
			return "minsize"
		}
		bump(g, &ts.MaxSize)
		return "maxsize"
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		if g.Bool() {
			bumpD(g, &ts.Min)
			return "min"
		}
		bumpD(g, &ts.Max)
		return "max"
	case "Array", "Map":
		switch g.Intn(4) {
		case 0:
			bump(g, &ts.MinSize)
			return "minsize"
		case 1:
			bump(g, &ts.MaxSize)
			return "maxsize"
		case 2:
			if k := kind(s, ts.Items); k == "Bool" {
				ts.Items = "Timestamp"
			} else {
				ts.Items = "Bool"
			}
			return "items"
		}
		if ts.Type == "Map" {
			if kind(s, ts.Keys) == "UUID" {
				ts.Keys = "String"
			} else {
				ts.Keys = "UUID"
			}
			return "keys"
		}
	case "UnitValue":
		if g.Bool() {
			if kind(s, ts.Unit) == "Enum" {
				ts.Unit = "String"
			} else {
				ts.Unit = "Timestamp"
			}
			return "unit"
		}
		if kind(s, ts.Value) == "Float32" {
			ts.Value = "Decimal"
		} else {
			ts.Value = "Float32"
		}
		return "value"
	case "Enum":
		if len(ts.Elements) > 0 && g.Bool() {
			e := ts.Elements[g.Intn(len(ts.Elements))]
			n := near(g, e.Symbol)
			for _, x := range ts.Elements {
				if x.Symbol == n {
					n = "CHANGED_SYM"
				}
			}
			e.Symbol = n
		} else {
			ts.Elements = append(ts.Elements, &sadl.EnumElementDef{Symbol: "MORE_SYM"})
		}
		return "symbols"
	case "Union":
		if len(ts.Variants) == 0 {
			return ""
		}
		v := ts.Variants[g.Intn(len(ts.Variants))]
		switch g.Intn(4) {
		case 3:
			if isBase(v.Type) {
				if c := change(g, s, &v.TypeSpec); c != "" {
					return "variant " + c
				}
			}
			return ""
		case 0:
			n := near(g, v.Name)
			for _, x := range ts.Variants {
				if x.Name == n {
					return ""
				}
			}
			v.Name = n
			return "variant name"
		case 1:
			if w := ts.Variants[g.Intn(len(ts.Variants))]; g.Bool() && mon.JSON(w.TypeSpec) != mon.JSON(v.TypeSpec) {
				v.TypeSpec, w.TypeSpec = w.TypeSpec, v.TypeSpec
				if w.Type == v.Type && !isBase(v.Type) {
					return ""
				}
				return "variant types exchanged"
			}
			if v.Type == "UUID" {
				v.Type = "Bool"
			} else {
				v.Type = "UUID"
			}
			return "variant type"
		}
		n := &sadl.UnionVariantDef{Name: "extraVariant"}
		n.Type = "Bool"
		ts.Variants = append(ts.Variants, n)
		return "variants"
	case "Struct":
		if len(ts.Fields) == 0 || g.P(15) {
			n := &sadl.StructFieldDef{Name: "extraField"}
			n.Type = "Bool"
			ts.Fields = append(ts.Fields, n)
			return "fields"
		}
		k := g.Intn(len(ts.Fields))
		f := ts.Fields[k]
		switch g.Intn(5) {
		case 0:
			n := near(g, f.Name)
			for _, x := range ts.Fields {
				if x.Name == n {
					return ""
				}
			}
			f.Name = n
			return "field name"
		case 1:
			f.Required = !f.Required
			return "field required"
		case 2:
			if f.Type == "Bool" {
				f.TypeSpec = sadl.TypeSpec{Type: "Timestamp"}
			} else {
				f.TypeSpec = sadl.TypeSpec{Type: "Bool"}
			}
			return "field type"
		case 3:
			ts.Fields = append(ts.Fields[:k:k], ts.Fields[k+1:]...)
			return "field removed"
		}
		if c := change(g, s, &f.TypeSpec); c != "" && isBase(f.Type) {
			return "field " + c
		}
		return ""
	}
	return ""
}

func isBase(t string) bool {
	for _, k := range gen.AllKinds {
		if k == t {
			return true
		}
	}
	return false
}

func kind(s *sadl.Schema, n string) string {
	for _, td := range s.Types {
		if td.Name == n {
			return td.Type
		}
	}
	return n
}

func equiv(r *mon.Run, rnd *mon.Rand) {
	g := gen.New(rnd, gen.Opts{Constraints: true, FieldCons: true, Sizes: true, InlineEnum: true, InlineStruct: true, InlineUnion: true, NamedItems: true, MapKeyNamed: true, MapKeyText: true, Reference: true, EmptyStruct: true})
	s := g.Types()
	for _, td := range s.Types {
		for _, v := range td.Variants {
			if g.P(25) && v.Name != v.Type {
				k := g.Pick("Array", "Map", "String", "Int32")
				v.TypeSpec = sadl.TypeSpec{Type: k}
				switch k {
				case "Map":
					v.Keys, v.Items = "String", g.Pick("Bool", "String", td.Name)
				case "Array":
					v.Items = g.Pick("Bool", "Int32", td.Name)
				}
				g.Constrain(&v.TypeSpec)
			}
		}
	}
	n := len(s.Types)
	type pair struct {
		a, b string
		same bool
		what string
	}
	var pairs []pair
	if g.P(15) { // collections that contain themselves, directly or through each other
		k := g.Range(1, 3)
		mk := func(prefix string, odd int) {
			for i := 0; i < k; i++ {
				td := &sadl.TypeDef{Name: fmt.Sprint(prefix, i), TypeSpec: sadl.TypeSpec{Type: "Array", Items: fmt.Sprint(prefix, (i+1)%k)}}
				if i%2 == 1 {
					td.Type, td.Keys = "Map", "String"
				}
				if i == odd {
					td.MinSize = i64(2)
				}
				s.Types = append(s.Types, td)
			}
		}
		k0 := k
		if g.Bool() { // or a long way to a difference
			k = g.Range(3, 9)
			mk("DeepA", -1)
			mk("DeepB", -1)
			mk("DeepC", -1)
			last := func(p, item string) { find(s, fmt.Sprint(p, k-1)).Items = item }
			last("DeepA", "String")
			last("DeepB", "String")
			last("DeepC", "Bool")
			pairs = append(pairs, pair{"DeepA0", "DeepB0", true, "deep"}, pair{"DeepA0", "DeepC0", false, "deep items"})
			k = k0
		}
		mk("LoopA", -1)
		mk("LoopB", -1)
		mk("LoopC", g.Intn(k))
		i := g.Intn(k)
		pairs = append(pairs, pair{fmt.Sprint("LoopA", i), fmt.Sprint("LoopB", i), true, "contains itself"}, pair{fmt.Sprint("LoopA", i), fmt.Sprint("LoopC", i), false, "contains itself, sizes differ"})
	}
	for i := 0; i < n; i++ {
		a := s.Types[i]
		add := func(ts *sadl.TypeSpec, same bool, what string) {
			td := &sadl.TypeDef{Name: fmt.Sprintf("%sV%d", a.Name, len(s.Types)), TypeSpec: *ts}
			s.Types = append(s.Types, td)
			pairs = append(pairs, pair{a.Name, td.Name, same, what})
		}
		pairs = append(pairs, pair{a.Name, a.Name, true, "itself"})
		add(clone(&a.TypeSpec), true, "copy")
		c := clone(&a.TypeSpec)
		shuffle(rnd, c)
		add(c, true, "permuted")
		for k := 0; k < 3; k++ {
			c := clone(&a.TypeSpec)
			if what := change(rnd, s, c); what != "" {
				add(c, false, what)
			}
		}
		// items, keys, unit, value replaced by another name for the same thing
		if a.Type == "Array" || a.Type == "Map" {
			if td := find(s, a.Items); td != nil {
				alias := &sadl.TypeDef{Name: fmt.Sprintf("Alias%d", len(s.Types)), TypeSpec: *clone(&td.TypeSpec)}
				s.Types = append(s.Types, alias)
				c := clone(&a.TypeSpec)
				c.Items = alias.Name
				add(c, true, "items under another name")
			}
		}
	}
	m, err := sadl.NewModel(s)
	if err != nil {
		mon.Bug("model: %v", err)
	}
	before := mon.JSON(s)
	r.Note(before)
	for _, p := range pairs {
		a, b := m.FindType(p.a), m.FindType(p.b)
		key := mon.JSON(a.TypeSpec) + mon.JSON(b.TypeSpec)
		r.Observe(key, true)
		res := []bool{m.EquivalentTypes(&a.TypeSpec, &b.TypeSpec), m.EquivalentTypes(&b.TypeSpec, &a.TypeSpec), m.EquivalentTypesByName(p.a, p.b), m.EquivalentTypesByName(p.b, p.a)}
		if p.same {
			r.Event("equivalent")
		} else {
			r.Event("different")
		}
		for k, v := range res {
			if v != p.same {
				r.Failf("equivalence", "types differing in %q: reported equivalent=%v, want %v (form %d)\n%s\n%s\n%s", p.what, v, p.same, k, mon.JSON(a), mon.JSON(b), before)
				break
			}
		}
	}
	for _, td := range s.Types[:n] {
		if m.EquivalentTypesByName(td.Name, "NoSuchType") || m.EquivalentTypesByName("NoSuchType", td.Name) {
			r.Failf("undefined", "%s is equivalent to an undefined type", td.Name)
		}
	}
	// different kinds are never equivalent
	for k := 0; k < 4; k++ {
		a, b := s.Types[g.Intn(n)], s.Types[g.Intn(n)]
		if a.Type != b.Type && m.EquivalentTypes(&a.TypeSpec, &b.TypeSpec) {
			r.Failf("kinds", "%s and %s are equivalent", a.Type, b.Type)
		}
	}
	if mon.JSON(s) != before {
		r.Fail("mutated", "comparing types changed the model")
	}
}

func find(s *sadl.Schema, n string) *sadl.TypeDef {
	for _, td := range s.Types {
		if td.Name == n {
			return td
		}
	}
	return nil
}

func sameSymbols(a, b *sadl.TypeSpec) bool {
	if a.Type != "Enum" || b.Type != "Enum" || len(a.Elements) != len(b.Elements) {
		return false
	}
	m := map[string]bool{}
	for _, e := range a.Elements {
		m[e.Symbol] = true
	}
	for _, e := range b.Elements {
		if !m[e.Symbol] {
			return false
		}
	}
	return true
}

func inline(r *mon.Run, rnd *mon.Rand) {
	g := gen.New(rnd, gen.Opts{Kinds: []string{"Struct", "Struct", "Struct", "Enum", "String", "Array"}, InlineEnum: true, InlineStruct: true, InlineUnion: true, Constraints: true, NamedItems: true,
		Comments: true, FieldComments: true, EnumComments: true, Annotations: true, MinTypes: 1, MaxTypes: 6})
	s := g.Types()
	for _, td := range s.Types { // more inline enums, some of them alike
		for _, f := range td.Fields {
			if g.P(25) {
				f.TypeSpec = sadl.TypeSpec{Type: "Enum", Elements: []*sadl.EnumElementDef{{Symbol: g.Pick("YES", "ON")}, {Symbol: g.Pick("NO", "OFF"), Comment: "off"}}}
			}
		}
	}
	for _, td := range s.Types { // and some named after their type
		if td.Type == "Struct" && g.P(20) {
			n := g.Pick(strings.ToLower(td.Name), strings.ToLower(td.Name[:1])+td.Name[1:], strings.ToUpper(td.Name)) + g.Pick("", "Kind", "_state")
			used := false
			for _, f := range td.Fields {
				used = used || strings.EqualFold(f.Name, n)
			}
			if !used {
				f := &sadl.StructFieldDef{Name: n, TypeSpec: sadl.TypeSpec{Type: "Enum", Elements: []*sadl.EnumElementDef{{Symbol: g.Pick("YES", "ON")}, {Symbol: "NO"}}}}
				td.Fields = append(td.Fields, f)
			}
		}
	}
	target := func(td *sadl.TypeDef, f *sadl.StructFieldDef) string {
		n := strings.ToUpper(f.Name[:1]) + f.Name[1:]
		if !strings.HasPrefix(n, td.Name) {
			n = td.Name + n
		}
		return n
	}
	orig0 := append([]*sadl.TypeDef{}, s.Types...)
	for _, td := range orig0 { // occasionally the target name is taken
		for _, f := range td.Fields {
			if f.Type != "Enum" || find(s, target(td, f)) != nil {
				continue
			}
			n := &sadl.TypeDef{Name: target(td, f)}
			switch {
			case g.P(12): // by the same enum, in another order
				n.TypeSpec = *clone(&f.TypeSpec)
				shuffle(rnd, &n.TypeSpec)
			case g.P(4):
				n.TypeSpec = *clone(&f.TypeSpec)
				n.Elements = append(n.Elements, &sadl.EnumElementDef{Symbol: "EXTRA"})
			case g.P(4):
				n.Type = "String"
			default:
				continue
			}
			at := g.Intn(len(s.Types) + 1)
			s.Types = append(s.Types[:at:at], append([]*sadl.TypeDef{n}, s.Types[at:]...)...)
		}
	}
	b, _ := json.Marshal(s)
	orig := &sadl.Schema{}
	if err := json.Unmarshal(b, orig); err != nil {
		mon.Bug("copy: %v", err)
	}
	m, err := sadl.NewModel(s)
	if err != nil {
		mon.Bug("model: %v", err)
	}
	om, _ := sadl.NewModel(orig)
	text := mon.JSON(orig)
	r.Note(text)
	// what must happen
	conflict := false
	made := map[string]*sadl.TypeSpec{}
	count := 0
	for _, td := range orig.Types {
		if td.Type != "Struct" {
			continue
		}
		for _, f := range td.Fields {
			if f.Type == "Enum" {
				count++
				n := target(td, f)
				if p := find(orig, n); p != nil {
					conflict = conflict || !sameSymbols(&p.TypeSpec, &f.TypeSpec)
				} else if q := made[n]; q != nil {
					conflict = conflict || !sameSymbols(q, &f.TypeSpec)
				} else {
					made[n] = &f.TypeSpec
				}
			}
		}
	}
	err = m.ConvertInlineEnums()
	r.Observe(text, count > 0)
	if conflict {
		if err == nil {
			r.Failf("conflict-missed", "two different enums would share a name, but the conversion succeeded\n%s\n%s", text, mon.JSON(s))
		}
		r.Event("conflict reported")
		return
	}
	if err != nil {
		r.Failf("refused", "conversion failed without a name conflict: %v\n%s", err, text)
		return
	}
	s = &sadl.Schema{Types: m.Types}
	res := mon.JSON(s)
	for pass := 0; pass < 2; pass++ {
		if len(s.Types) != len(orig.Types)+len(made) {
			r.Failf("types", "%d types after the conversion, want %d\n%s\n%s", len(s.Types), len(orig.Types)+len(made), text, res)
			return
		}
		for i, otd := range orig.Types {
			td := s.Types[i]
			if td.Name != otd.Name || m.FindType(td.Name) != td {
				r.Failf("order", "type %s moved or lost", otd.Name)
				return
			}
			want := *otd
			want.Fields = nil
			got := *td
			got.Fields = nil
			if mon.JSON(want) != mon.JSON(got) || len(td.Fields) != len(otd.Fields) {
				r.Failf("type-changed", "type %s changed\n%s\n%s", td.Name, mon.JSON(otd), mon.JSON(td))
				return
			}
			for k, of := range otd.Fields {
				f := td.Fields[k]
				if otd.Type == "Struct" && of.Type == "Enum" {
					e := m.FindType(f.Type)
					if f.Type != target(otd, of) || e == nil || len(f.Elements) != 0 {
						r.Failf("reference", "field %s.%s was an inline enum and is now %s\n%s", otd.Name, of.Name, mon.JSON(f), res)
						continue
					}
					if find(orig, e.Name) == nil && made[e.Name] == &of.TypeSpec && !reflect.DeepEqual(jsonOf(e.TypeSpec), jsonOf(of.TypeSpec)) || !sameSymbols(&e.TypeSpec, &of.TypeSpec) {
						r.Failf("elements", "field %s.%s had %s, its type %s now has %s", otd.Name, of.Name, mon.JSON(of.TypeSpec), e.Name, mon.JSON(e.TypeSpec))
					}
					if f.Name != of.Name || f.Required != of.Required || f.Comment != of.Comment || !reflect.DeepEqual(f.Annotations, of.Annotations) {
						r.Failf("field", "field %s.%s changed: %s", otd.Name, of.Name, mon.JSON(f))
					}
					r.Event("enum converted")
				} else if mon.JSON(f) != mon.JSON(of) {
					r.Failf("field-changed", "field %s.%s changed\n%s\n%s", otd.Name, of.Name, mon.JSON(of), mon.JSON(f))
				}
			}
		}
		seen := map[string]bool{}
		for _, td := range s.Types {
			if seen[td.Name] || m.FindType(td.Name) != td {
				r.Failf("index", "type %s is defined twice or not found\n%s", td.Name, res)
			}
			seen[td.Name] = true
		}
		// once more: nothing left to do
		if err := m.ConvertInlineEnums(); err != nil || mon.JSON(&sadl.Schema{Types: m.Types}) != res {
			r.Failf("idempotent", "converting again changed the model: %v\n%s\n%s", err, res, mon.JSON(s))
			return
		}
	}
	// the same values are valid before and after
	og := gen.New(rnd, gen.Opts{})
	og.Schema = orig
	types := ref.TypesOf(orig)
	for _, td := range orig.Types {
		for k := 0; k < 3; k++ {
			v := og.Value(&td.TypeSpec, []int{0, 15, 40}[k], 0)
			e1, e2 := om.Validate("", td.Name, v), m.Validate("", td.Name, v)
			r.Event("value verdicts compared")
			if (e1 == nil) != (e2 == nil) || (e2 == nil) != types.Conforms(&td.TypeSpec, v) {
				r.Failf("verdict", "value %s of %s: before %v, after %v\n%s", mon.JSON(v), td.Name, e1, e2, text)
			}
		}
	}
}

func jsonOf(v interface{}) string { return mon.JSON(v) }
