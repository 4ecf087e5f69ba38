// Package gen generates SADL schemas and values from a seeded PRNG.
package gen

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/boynton/sadl"

	"verif/mon"
)

// Opts selects which features of the language a generated schema uses.
type Opts struct {
	Kinds         []string // kinds of top level type definitions
	FieldKinds    []string // base kinds usable directly for a field
	MinTypes      int
	MaxTypes      int
	Constraints   bool // min/max/minsize/maxsize/pattern/values on typedefs
	FieldCons     bool // ... and on fields
	Sizes         bool // sizes on arrays and maps
	InlineEnum    bool
	Names         []string // more names of types
	Hostile       bool     // comments with text that means something elsewhere
	InlineUnion   bool     // struct fields that are inline unions
	InlineStruct  bool
	Recursive     bool
	Comments      bool
	FieldComments bool
	Annotations   bool
	Defaults      bool
	UniqueSymbols bool // enum symbols unique over the schema
	EmptyStruct   bool
	NamedItems    bool // array/map items may be named types
	MapKeyNamed   bool
	MapKeyText    bool // keys that are UUIDs and Timestamps
	Reference     bool
	EnumComments  bool
	PlainValues   bool // strings with allowed values have no other constraints
	FloatLimits   bool // numeric limits are exact in a float64
	LowerNames    bool // some type names start in lower case
	Quotes        bool // patterns and enum values with quotes and such
}

var AllKinds = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp",
	"UnitValue", "UUID", "Array", "Map", "Struct", "Enum", "Union", "Any"}

var Numeric = map[string]bool{"Int8": true, "Int16": true, "Int32": true, "Int64": true, "Float32": true, "Float64": true, "Decimal": true}

var typeWords = []string{"Item", "Order", "User", "Price", "Widget", "Account", "Invoice", "Shape", "Color", "Address", "Profile", "Ticket",
	"Label", "Batch", "Token", "Region", "Vendor", "Sensor", "Report", "Policy", "Channel", "Device", "Message", "Page"}
var fieldWords = []string{"id", "name", "count", "total", "status", "owner", "created", "tags", "kind", "ratio", "weight", "first_name",
	"lastName", "zipCode", "note", "link", "url2", "lineItems", "parent", "child", "color", "enabled", "x1", "maxValue", "my_int_array"}
var symWords = []string{"RED", "GREEN", "BLUE", "ON", "OFF", "ACTIVE", "CLOSED", "NEW_ITEM", "LARGE", "SMALL", "NORTH", "SOUTH", "EAST", "WEST", "LEVEL_1", "LEVEL_2"}

// words that mean something in a target language, when they get out of the comment
var hostileWords = []string{"*/", "/*", "//", "#", "\"\"\"", "\"", "'", "`", "C:\\users", "\\n", "{{.Name}}", "{", "}", "%s", "%", "$ref", "<b>", "&", "import", "\u00e9", "-->", "\\u000a", ";"}

var commentWords = []string{"the", "value", "of", "an", "item", "used", "for", "orders", "unique", "identifier", "when", "present", "optional", "note:", "see", "also", "(default)", "100%", "e.g."}

type G struct {
	*mon.Rand
	O      Opts
	Schema *sadl.Schema
	names  map[string]bool
	syms   int
	big    int // which dimension of the schema and its values is much larger than usual (one at most)
	budget int // sub-values that a value of a deep type may still get
}

// what may be large
const (
	bigNone = iota
	bigFields
	bigTypes
	bigLists // symbols, variants, allowed values
	bigValues
	bigDepth
	bigHttp
	bigEnd
)

// many is a number from lo to hi, or now and then one from hi to big, when that dimension of the schema is the large one.
func (g *G) many(dim, lo, hi, big int) int {
	if g.big == dim && g.P(50) {
		return g.Range(hi, big)
	}
	return g.Range(lo, hi)
}

// deep tells whether a value at this depth has to come to an end.
func (g *G) deep(depth, limit int) bool {
	if g.big != bigDepth {
		return depth >= limit
	}
	if depth == 0 {
		g.budget = 300
	}
	g.budget--
	return depth >= 90 || g.budget < 0
}

func New(r *mon.Rand, o Opts) *G {
	if o.Kinds == nil {
		o.Kinds = AllKinds
	}
	if o.FieldKinds == nil {
		o.FieldKinds = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any", "Array", "Map"}
	}
	if o.MaxTypes == 0 {
		o.MinTypes, o.MaxTypes = 2, 9
	}
	g := &G{Rand: r, O: o, names: map[string]bool{}}
	if g.P(8) {
		g.big = g.Range(bigNone+1, bigEnd-1)
	}
	return g
}

func (g *G) TypeName() string {
	for {
		n := g.PickS(typeWords)
		if len(g.O.Names) > 0 && g.P(10) {
			n = g.PickS(g.O.Names)
		}
		switch g.Intn(4) {
		case 0:
			n += g.PickS(typeWords)
		case 1:
			n += fmt.Sprint(g.Intn(10))
		}
		if !g.names[strings.ToLower(n)] {
			g.names[strings.ToLower(n)] = true
			if g.O.LowerNames && g.P(15) {
				n = strings.ToLower(n[:1]) + n[1:]
			}
			return n
		}
	}
}

func (g *G) FieldName(used map[string]bool) string {
	for {
		n := g.PickS(fieldWords)
		if g.P(20) {
			n += fmt.Sprint(g.Intn(10))
		}
		k := strings.ToLower(strings.ReplaceAll(n, "_", ""))
		if !used[k] {
			used[k] = true
			return n
		}
	}
}

func (g *G) Comment() string {
	n := g.Range(1, 12)
	if g.P(6) {
		n = g.Range(13, 45)
	}
	var w []string
	for i := 0; i < n; i++ {
		if g.O.Hostile && g.P(6) {
			w = append(w, g.PickS(hostileWords))
			continue
		}
		w = append(w, g.PickS(commentWords))
	}
	if g.O.Hostile && g.P(6) && n > 2 {
		k := g.Range(1, n-1)
		return strings.Join(w[:k], " ") + g.Pick("\n", "\n", "\r\n", "\r") + strings.Join(w[k:], " ")
	}
	return strings.Join(w, " ")
}

func (g *G) maybeComment(pct int) string {
	if g.O.Comments && g.P(pct) {
		return g.Comment()
	}
	return ""
}

func (g *G) annos(pct int) map[string]string {
	if !g.O.Annotations || !g.P(pct) {
		return nil
	}
	m := map[string]string{}
	for i, n := 0, g.Range(1, 3); i < n; i++ {
		k := "x_" + g.Pick("a", "tag", "owner", "since", "deprecated", "b2")
		m[k] = g.Pick("", "yes", "1.0", "some text", "a-b")
	}
	return m
}

func dec(s string) *sadl.Decimal {
	d, err := sadl.ParseDecimal(s)
	if err != nil {
		mon.Bug("gen: bad decimal %q: %v", s, err)
	}
	return d
}

var intRange = map[string][2]int64{"Int8": {-128, 127}, "Int16": {-32768, 32767}, "Int32": {-2147483648, 2147483647},
	"Int64": {-9223372036854775808, 9223372036854775807}}

func i64(n int) *int64 { v := int64(n); return &v }

// Constrain adds constraints appropriate for ts.Type.
func (g *G) Constrain(ts *sadl.TypeSpec) {
	switch ts.Type {
	case "Int8", "Int16", "Int32", "Int64":
		r := intRange[ts.Type]
		lo, hi := int64(g.Range(-100, 20)), int64(g.Range(21, 120))
		if ts.Type != "Int8" && g.P(40) {
			hi = int64(g.Range(1000, 30000))
		}
		if g.P(15) {
			lo = r[0]
		}
		if g.P(15) && !(g.O.FloatLimits && ts.Type == "Int64") {
			hi = r[1]
		}
		if g.P(8) && lo <= 0 {
			hi = 0
		} else if g.P(8) {
			hi = lo
		}
		if g.P(70) {
			ts.Min = dec(fmt.Sprint(lo))
		}
		if g.P(70) {
			ts.Max = dec(fmt.Sprint(hi))
		}
	case "Float32", "Float64", "Decimal":
		if g.P(70) {
			ts.Min = dec(g.Pick("-90", "0", "0.5", "-1.25", "3.0", "-1000000", "0.1", "-2.2"))
		}
		if g.P(70) {
			ts.Max = dec(g.Pick("90", "3.5", "100", "1000000.75", "99.9", "7.3", "3.141592653589793238462643383279502884197169399375105819"))
			if g.O.FloatLimits && len(ts.Max.String()) > 20 {
				ts.Max = dec("3.125")
			}
			if g.P(10) && (ts.Min == nil || ts.Min.Sign() <= 0) {
				ts.Max = dec("0")
			}
		}
		if ts.Type != "Float32" && !g.O.FloatLimits { // beyond 64 bits
			if ts.Min != nil && g.P(12) {
				ts.Min = dec(g.Pick("-9223372036854775809", "-100000000000000000000", "-123456789012345678901234567890"))
			}
			if ts.Max != nil && g.P(12) {
				ts.Max = dec(g.Pick("18446744073709551616", "100000000000000000000", "123456789012345678901234567890"))
			}
		}
	case "String":
		if g.P(20) {
			g.sizes(ts)
		}
		switch g.Intn(4) {
		case 0:
			ts.Pattern = g.Pick("^[a-z]+$", "^[A-Z]{3}$", "[0-9]+", "^[a-zA-Z_][a-zA-Z_0-9]*$", "^(foo|bar)$", "^a.c$")
		case 1:
			vals := []string{"a:b", "c:d", "e f", "g", "hello", "x-y", "J", "k.l", "mno"}
			n := g.Range(1, 4)
			if g.P(15) {
				n = g.Range(5, len(vals))
			}
			if g.big == bigLists && g.P(50) {
				for i := 0; i < 30; i++ {
					vals = append(vals, fmt.Sprintf("v%d", i))
				}
				n = g.Range(10, len(vals))
			}
			p := g.Perm(len(vals))
			for i := 0; i < n; i++ {
				ts.Values = append(ts.Values, vals[p[i]])
			}
			if g.O.PlainValues {
				ts.MinSize, ts.MaxSize = nil, nil
			}
		default:
			g.sizes(ts)
		}
	case "Bytes":
		g.sizes(ts)
	case "Array", "Map":
		if g.O.Sizes {
			g.sizes(ts)
		}
	}
}

func (g *G) sizes(ts *sadl.TypeSpec) {
	lo := g.Range(0, 3)
	if g.P(70) {
		ts.MinSize = i64(lo)
	}
	if g.P(70) {
		ts.MaxSize = i64(lo + g.many(bigValues, 0, 4, 40))
	}
}

// named returns the name of an already defined type satisfying pred, or "".
func (g *G) named(pred func(*sadl.TypeDef) bool) string {
	var c []string
	for _, td := range g.Schema.Types {
		if pred == nil || pred(td) {
			c = append(c, td.Name)
		}
	}
	if len(c) == 0 {
		return ""
	}
	return g.PickS(c)
}

func (g *G) has(list []string, k string) bool {
	for _, s := range list {
		if s == k {
			return true
		}
	}
	return false
}

var scalarKinds = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any"}

func (g *G) itemType() string {
	if g.O.NamedItems && g.P(50) {
		if n := g.named(nil); n != "" {
			return n
		}
	}
	var c []string
	for _, k := range scalarKinds {
		if g.has(g.O.FieldKinds, k) {
			c = append(c, k)
		}
	}
	return g.PickS(c)
}

func (g *G) keyType() string {
	if g.O.MapKeyText && g.P(25) {
		if n := g.named(func(td *sadl.TypeDef) bool { return td.Type == "Timestamp" }); n != "" && g.P(60) {
			return n
		}
		return g.Pick("UUID", "Timestamp")
	}
	if g.O.MapKeyNamed && g.P(40) {
		if n := g.named(func(td *sadl.TypeDef) bool { return td.Type == "String" || td.Type == "Enum" || td.Type == "UUID" }); n != "" {
			return n
		}
	}
	return "String"
}

func (g *G) enumElements() []*sadl.EnumElementDef {
	n := g.many(bigLists, 1, 5, 40)
	p := g.Perm(len(symWords))
	var els []*sadl.EnumElementDef
	for i := 0; i < n; i++ {
		s := symWords[p[i%len(p)]]
		if i >= len(p) {
			s += fmt.Sprintf("_X%d", i/len(p))
		}
		if g.O.UniqueSymbols {
			g.syms++
			s = fmt.Sprintf("%s_%d", s, g.syms)
		} else if g.P(20) {
			s = strings.ToLower(s)
		}
		el := &sadl.EnumElementDef{Symbol: s, Annotations: g.annos(15)}
		if g.O.EnumComments {
			el.Comment = g.maybeComment(20)
		}
		els = append(els, el)
	}
	return els
}

func (g *G) variants() []*sadl.UnionVariantDef {
	n := g.many(bigLists, 1, 4, 12)
	used := map[string]bool{}
	seen := map[string]bool{}
	byName := g.Bool()
	var vs []*sadl.UnionVariantDef
	for i := 0; i < n; i++ {
		v := &sadl.UnionVariantDef{}
		v.Type = g.named(nil)
		if v.Type == "" || g.P(30) {
			v.Type = g.Pick("String", "Int32", "Bool", "Float64")
		}
		if byName {
			v.Name = g.FieldName(used)
		} else {
			v.Name = v.Type
		}
		if seen[v.Name] {
			continue
		}
		seen[v.Name] = true
		vs = append(vs, v)
	}
	return vs
}

// FieldSpec fills a type spec for a struct field.
func (g *G) fieldSpec(ts *sadl.TypeSpec, depth int, self string) {
	if g.O.InlineEnum && g.P(10) {
		ts.Type = "Enum"
		ts.Elements = g.enumElements()
		return
	}
	if g.O.InlineUnion && g.P(8) {
		ts.Type = "Union"
		ts.Variants = g.variants()
		return
	}
	if g.O.InlineStruct && (depth < 2 && g.P(8) || g.big == bigDepth && depth < 6 && g.P(25)) {
		ts.Type = "Struct"
		ts.Fields = g.fields(depth+1, "")
		return
	}
	if g.P(45) {
		if n := g.named(nil); n != "" {
			ts.Type = n
			return
		}
	}
	if self != "" && g.O.Recursive && g.P(12) {
		ts.Type = "Array"
		ts.Items = self
		return
	}
	ts.Type = g.PickS(g.O.FieldKinds)
	switch ts.Type {
	case "Array":
		ts.Items = g.itemType()
	case "Map":
		ts.Keys = g.keyType()
		ts.Items = g.itemType()
	case "UnitValue":
		ts.Value, ts.Unit = g.unitParams()
	}
	if g.O.FieldCons && g.P(40) {
		g.Constrain(ts)
	}
	if g.O.Reference && (ts.Type == "String" && ts.Pattern == "" && ts.Values == nil || ts.Type == "UUID") && g.P(10) {
		ts.Reference = g.named(nil)
	}
}

func (g *G) unitParams() (string, string) {
	v := g.named(func(td *sadl.TypeDef) bool { return Numeric[td.Type] })
	if v == "" || g.P(50) {
		v = g.Pick("Decimal", "Int32", "Float64", "Int64")
	}
	u := g.named(func(td *sadl.TypeDef) bool { return td.Type == "String" || td.Type == "Enum" })
	if u == "" || g.P(50) {
		u = "String"
	}
	return v, u
}

func (g *G) fields(depth int, self string) []*sadl.StructFieldDef {
	n := g.many(bigFields, 1, 6, 25)
	if g.big == bigDepth {
		n = g.Range(1, 3)
	}
	if g.O.EmptyStruct && g.P(8) {
		n = 0
	}
	used := map[string]bool{}
	var out []*sadl.StructFieldDef
	for i := 0; i < n; i++ {
		f := &sadl.StructFieldDef{Name: g.FieldName(used), Annotations: g.annos(12)}
		if g.O.FieldComments {
			f.Comment = g.maybeComment(20)
		}
		g.fieldSpec(&f.TypeSpec, depth, self)
		if f.Type != self && f.Items != self {
			f.Required = g.P(45)
		}
		out = append(out, f)
	}
	return out
}

// Def makes one type definition of the given kind.
func (g *G) Def(kind string) *sadl.TypeDef {
	td := &sadl.TypeDef{Name: g.TypeName(), Comment: g.maybeComment(40), Annotations: g.annos(20)}
	td.Type = kind
	switch kind {
	case "Array":
		td.Items = g.itemType()
	case "Map":
		td.Keys = g.keyType()
		td.Items = g.itemType()
	case "UnitValue":
		td.Value, td.Unit = g.unitParams()
	case "Struct":
		td.Fields = g.fields(0, td.Name)
	case "Enum":
		td.Elements = g.enumElements()
	case "Union":
		td.Variants = g.variants()
	}
	if g.O.Constraints && g.P(60) {
		g.Constrain(&td.TypeSpec)
	}
	if g.O.Reference && (kind == "String" && td.Pattern == "" && td.Values == nil || kind == "UUID") && g.P(15) {
		td.Reference = g.named(nil)
	}
	return td
}

// Types generates a schema with types only.
func (g *G) Types() *sadl.Schema {
	g.Schema = &sadl.Schema{Sadl: sadl.Version, Name: g.Pick("svc", "petstore", "orders", "catalog2"), Namespace: g.Pick("examples", "com.acme", "test.ns", "org.acme.shop.orders.api"), Version: g.Pick("1", "2", "1.2")}
	g.Schema.Comment = g.maybeComment(40)
	n := g.many(bigTypes, g.O.MinTypes, g.O.MaxTypes, g.O.MaxTypes+16)
	for i := 0; i < n; i++ {
		g.Schema.Types = append(g.Schema.Types, g.Def(g.PickS(g.O.Kinds)))
	}
	if g.big == bigHttp && g.has(g.O.Kinds, "Struct") { // for the exceptions
		for i := 0; i < 7; i++ {
			g.Schema.Types = append(g.Schema.Types, g.Def("Struct"))
		}
	}
	if g.big == bigDepth && g.has(g.O.Kinds, "Struct") {
		g.chain()
	}
	if g.O.Recursive {
		g.recurse()
	}
	return g.Schema
}

// chain adds structs, each with a field of the one before: values that are many levels deep.
func (g *G) chain() {
	prev := ""
	for i, n := 0, g.Range(5, 12); i < n; i++ {
		td := g.Def("Struct")
		if prev != "" && len(td.Fields) > 0 {
			f := td.Fields[g.Intn(len(td.Fields))]
			f.TypeSpec = sadl.TypeSpec{Type: prev}
			f.Default = nil
			f.Required = g.P(70)
			if g.O.NamedItems && g.P(30) {
				if k := g.Pick("Array", "Map"); g.has(g.O.FieldKinds, k) {
					f.TypeSpec = sadl.TypeSpec{Type: k, Items: prev}
					if k == "Map" {
						f.Keys = "String"
					}
				}
			}
		}
		g.Schema.Types = append(g.Schema.Types, td)
		prev = td.Name
	}
}

// recurse makes types refer to any other and to themselves, in ways that leave every type with finite values:
// optional fields, all but the first variant of a union, items of collections that may be empty. Some of the
// definitions then come after their uses.
func (g *G) recurse() {
	var to []string
	for _, td := range g.Schema.Types {
		if td.Type == "Struct" || td.Type == "Union" {
			to = append(to, td.Name)
		}
	}
	if len(to) == 0 || g.P(40) {
		return
	}
	for _, td := range g.Schema.Types {
		for _, f := range td.Fields {
			if f.Required || f.Default != nil || f.Type == "Array" || f.Type == "Map" || len(f.Elements)+len(f.Fields)+len(f.Variants) > 0 || !g.P(15) {
				continue
			}
			f.TypeSpec = sadl.TypeSpec{Type: g.PickS(to)}
		}
		for i, v := range td.Variants {
			if i > 0 && v.Name != v.Type && g.P(25) {
				v.Type = g.PickS(to)
			}
		}
		if (td.Type == "Array" || td.Type == "Map") && td.MinSize == nil && td.Items != "" && g.P(15) {
			td.Items = g.PickS(to)
		}
	}
	if g.P(30) {
		var tds []*sadl.TypeDef
		for _, k := range g.Perm(len(g.Schema.Types)) {
			tds = append(tds, g.Schema.Types[k])
		}
		g.Schema.Types = tds
	}
}

// ---------------------------------------------------------------- values

func (g *G) str(s string) interface{} {
	if g.Bool() {
		return s
	}
	return &s
}

func lookup(s *sadl.Schema, name string) *sadl.TypeSpec {
	for _, td := range s.Types {
		if td.Name == name {
			return &td.TypeSpec
		}
	}
	if name == "" { // items of a collection without parameters
		name = "Any"
	}
	return &sadl.TypeSpec{Type: name}
}

var uuids = []string{"1ce437b0-1dd2-11b2-bc26-003ee1be85f9", "FFFFFFFF-0000-1111-2222-abcdefABCDEF", "00000000-0000-0000-0000-000000000000"}
var stamps = []string{"2019-02-03T22:48:19.043Z", "2020-02-29T00:00:00.000Z", "1999-12-31T23:59:59.999Z", "2019-02-03T22:48:19Z", "2021-06-01T01:02:03.5Z", "2019-02-03T22:48:19.043+00:00", "2019-02-03T22:48:19.043-0000"}

func patternSample(g *G, p string) string {
	switch p {
	case "^[a-z]+$":
		return g.Pick("abc", "z", "hello")
	case "^[A-Z]{3}$":
		return g.Pick("USD", "ABC")
	case "[0-9]+":
		return g.Pick("42", "x9y", "007")
	case "^[a-zA-Z_][a-zA-Z_0-9]*$":
		return g.Pick("_x1", "foo", "B_2")
	case "^(foo|bar)$":
		return g.Pick("foo", "bar")
	case "^a.c$":
		return g.Pick("abc", "a-c")
	}
	return "abc"
}

func (g *G) Digits(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(byte('a' + g.Intn(26)))
	}
	return b.String()
}

// Number returns a Decimal in or close to the boundary of the given range.
func (g *G) number(ts *sadl.TypeSpec, valid bool) *sadl.Decimal {
	isInt := strings.HasPrefix(ts.Type, "Int")
	var lo, hi *big.Rat
	if r, ok := intRange[ts.Type]; ok {
		lo, hi = new(big.Rat).SetInt64(r[0]), new(big.Rat).SetInt64(r[1])
	}
	if ts.Min != nil {
		lo, _ = new(big.Rat).SetString(ts.Min.String())
	}
	if ts.Max != nil {
		hi, _ = new(big.Rat).SetString(ts.Max.String())
	}
	one := big.NewRat(1, 1)
	var v *big.Rat
	switch g.Intn(4) {
	case 0:
		if lo != nil {
			v = new(big.Rat).Set(lo)
		}
	case 1:
		if hi != nil {
			v = new(big.Rat).Set(hi)
		}
	case 2:
		if lo != nil && hi != nil {
			v = new(big.Rat).Add(lo, hi)
			v.Mul(v, big.NewRat(1, 2))
			if isInt {
				q := new(big.Int).Div(v.Num(), v.Denom())
				v.SetInt(q)
			}
		}
	}
	if v == nil {
		if lo != nil {
			v = new(big.Rat).Add(lo, one)
		} else if hi != nil {
			v = new(big.Rat).Sub(hi, one)
		} else {
			v = big.NewRat(int64(g.Range(-1000, 1000)), 1)
		}
	}
	if !valid {
		switch g.Intn(6) {
		case 4:
			v.Add(v, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(g.Range(1, 45))), nil)))
		case 5:
			v.Sub(v, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(g.Range(1, 45))), nil)))
		case 0:
			v.Add(v, one)
		case 1:
			v.Sub(v, one)
		case 2:
			v.Add(v, big.NewRat(1, 2))
		case 3:
			v.Add(v, new(big.Rat).SetInt64(int64(g.Range(-70000, 70000))))
		}
	}
	s := v.FloatString(60)
	s = strings.TrimRight(s, "0")
	s = strings.TrimSuffix(s, ".")
	return dec(s)
}

// Value generates a value for ts: mostly conforming; noise is the percentage of sub-values that are perturbed.
func (g *G) Value(ts *sadl.TypeSpec, noise int, depth int) interface{} {
	if noise > 0 && g.P(noise) {
		if v, ok := g.bad(ts, noise, depth); ok {
			return v
		}
	}
	switch ts.Type {
	case "Bool":
		b := g.Bool()
		if g.P(20) {
			return &b
		}
		return b
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		return g.number(ts, true)
	case "String":
		if len(ts.Values) > 0 {
			return g.str(g.PickS(ts.Values))
		}
		if ts.Pattern != "" {
			return g.str(patternSample(g, ts.Pattern))
		}
		lo, hi := 0, 8
		if g.big == bigValues && g.P(20) {
			hi = g.Range(100, 3000)
		}
		if ts.MinSize != nil {
			lo = int(*ts.MinSize)
			hi = lo + 4
		}
		if ts.MaxSize != nil {
			hi = int(*ts.MaxSize)
		}
		n := g.Pick("lo", "hi", "mid")
		switch n {
		case "lo":
			return g.str(g.Digits(lo))
		case "hi":
			return g.str(g.Digits(hi))
		}
		if hi < lo {
			hi = lo
		}
		return g.str(g.Digits(g.Range(lo, hi)))
	case "Enum":
		if len(ts.Elements) == 0 {
			return g.str("X")
		}
		return g.str(ts.Elements[g.Intn(len(ts.Elements))].Symbol)
	case "UUID":
		return g.str(g.PickS(uuids))
	case "Timestamp":
		return g.str(g.PickS(stamps))
	case "UnitValue":
		v := g.Value(lookup(g.Schema, ts.Value), 0, depth+1)
		u := g.Value(lookup(g.Schema, ts.Unit), 0, depth+1)
		d, _ := v.(*sadl.Decimal)
		us := sadl.AsString(u)
		if us == "" {
			us = "kg"
		}
		return g.str(d.String() + " " + us)
	case "Any", "Bytes":
		switch g.Intn(4) {
		case 0:
			return g.str("any")
		case 1:
			return dec("12")
		case 2:
			return map[string]interface{}{"k": true}
		}
		return []interface{}{dec("1"), "x"}
	case "Array":
		n := g.size(ts, depth)
		a := make([]interface{}, 0)
		for i := 0; i < n; i++ {
			a = append(a, g.Value(lookup(g.Schema, ts.Items), noise, depth+1))
		}
		return a
	case "Map":
		n := g.size(ts, depth)
		m := map[string]interface{}{}
		for i := 0; i < n*3 && len(m) < n; i++ {
			k := sadl.AsString(g.Value(lookup(g.Schema, ts.Keys), noise, depth+1))
			if ts.Keys == "String" && len(m) < n && k == "" {
				k = fmt.Sprintf("k%d", i)
			}
			if len(k) > 200 { // YAML has a limit
				k = k[:200]
			}
			m[k] = g.Value(lookup(g.Schema, ts.Items), noise, depth+1)
		}
		return m
	case "Struct":
		m := map[string]interface{}{}
		for _, f := range ts.Fields {
			if f.Required || (!g.deep(depth, 4) && g.P(70)) {
				m[f.Name] = g.Value(&f.TypeSpec, noise, depth+1)
			}
		}
		return m
	case "Union":
		if len(ts.Variants) == 0 {
			return map[string]interface{}{}
		}
		v := ts.Variants[g.Intn(len(ts.Variants))]
		if g.deep(depth, 4) {
			v = ts.Variants[0]
		}
		return map[string]interface{}{v.Name: g.Value(&v.TypeSpec, noise, depth+1)}
	}
	return g.Value(lookup(g.Schema, ts.Type), noise, depth+1)
}

func (g *G) size(ts *sadl.TypeSpec, depth int) int {
	lo, hi := 0, 3
	if ts.MinSize != nil {
		lo = int(*ts.MinSize)
		hi = lo + 2
	}
	if ts.MaxSize != nil {
		hi = int(*ts.MaxSize)
	} else if g.big == bigValues && depth < 2 && g.P(50) {
		hi = lo + g.Range(8, 70)
		lo = hi - 3
	}
	if hi < lo {
		hi = lo
	}
	if depth > 1 && hi > lo+4 && g.big == bigValues {
		hi = lo + 4
	}
	if g.deep(depth, 4) && ts.MinSize == nil {
		return 0
	}
	return g.Range(lo, hi)
}

// bad perturbs: the oracle, not this function, decides whether the result conforms.
func (g *G) bad(ts *sadl.TypeSpec, noise, depth int) (interface{}, bool) {
	if g.P(25) { // value of another shape altogether
		switch g.Intn(6) {
		case 0:
			return g.str(g.Pick("", "zzz", "true", "12")), true
		case 1:
			return dec(g.Pick("0", "12", "-1.5")), true
		case 2:
			return g.Bool(), true
		case 3:
			return []interface{}{}, true
		case 4:
			return map[string]interface{}{}, true
		}
		return nil, true
	}
	switch ts.Type {
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		return g.number(ts, false), true
	case "String":
		if len(ts.Values) > 0 {
			return g.str(g.PickS(ts.Values) + g.Pick("", "x")), true
		}
		if ts.Pattern != "" {
			return g.str(g.Pick(patternSample(g, ts.Pattern), "", "1", "ABCD", "ab1", "foox", " "+patternSample(g, ts.Pattern))), true
		}
		n := 0
		if ts.MinSize != nil && g.Bool() {
			n = int(*ts.MinSize) - 1
		} else if ts.MaxSize != nil {
			n = int(*ts.MaxSize) + 1
		}
		if n < 0 {
			n = 0
		}
		return g.str(g.Digits(n)), true
	case "Enum":
		return g.str(g.Pick("", "NOPE", strings.ToLower(symWords[g.Intn(len(symWords))]), symWords[g.Intn(len(symWords))])), true
	case "UUID":
		u := g.PickS(uuids)
		switch g.Intn(5) {
		case 0:
			u = u[1:]
		case 1:
			i := g.Intn(len(u))
			u = u[:i] + g.Pick("g", "-", "x", " ", "0") + u[i+1:]
		case 2:
			u = u + "0"
		case 3:
			u = strings.ReplaceAll(u, "-", "")
		case 4:
			p := []int{8, 13, 18, 23}[g.Intn(4)]
			u = u[:p] + "0" + u[p+1:]
		}
		return g.str(u), true
	case "Timestamp":
		return g.str(g.Pick("2019-02-03T22:48:19.043", "2019-13-03T22:48:19.043Z", "2019-02-30T22:48:19.043Z", "2019-02-03 22:48:19Z", "2019-02-03T22:48:19.043+05:00",
			"2019-02-03T22:48:19.043Zx", "2019-02-03", "yesterday", "2019-02-29T00:00:00Z", "2019-02-03T24:48:19.043Z", "2019-02-03T22:60:19.043Z", "")), true
	case "UnitValue":
		v := g.Value(lookup(g.Schema, ts.Value), 60, depth+1)
		u := g.Value(lookup(g.Schema, ts.Unit), 60, depth+1)
		d, ok := v.(*sadl.Decimal)
		us := sadl.AsString(u)
		if !ok || us == "" {
			return g.str(g.Pick("", "5", "USD", "x USD", " USD", "USD 5", "5-USD")), true
		}
		if g.P(20) {
			return g.str(d.String() + us), true
		}
		return g.str(d.String() + " " + us), true
	case "Array":
		a := make([]interface{}, 0)
		n := g.Range(0, 4)
		if ts.MaxSize != nil && g.Bool() {
			n = int(*ts.MaxSize) + 1
		} else if ts.MinSize != nil && *ts.MinSize > 0 {
			n = int(*ts.MinSize) - 1
		}
		if g.deep(depth, 5) {
			n = 0
		}
		if g.big == bigValues && depth < 2 && ts.MaxSize == nil && g.P(50) {
			n = g.Range(8, 70)
		}
		for i := 0; i < n; i++ {
			a = append(a, g.Value(lookup(g.Schema, ts.Items), noise/2, depth+1))
		}
		return a, true
	case "Map":
		m := map[string]interface{}{}
		n := g.Range(0, 4)
		if ts.MaxSize != nil && g.Bool() {
			n = int(*ts.MaxSize) + 1
		} else if ts.MinSize != nil && *ts.MinSize > 0 {
			n = int(*ts.MinSize) - 1
		}
		if g.deep(depth, 5) {
			n = 0
		}
		if g.big == bigValues && depth < 2 && ts.MaxSize == nil && g.P(50) {
			n = g.Range(8, 70)
		}
		for i := 0; i < n; i++ {
			k := sadl.AsString(g.Value(lookup(g.Schema, ts.Keys), noise/2, depth+1))
			if k == "" {
				k = fmt.Sprintf("k%d", i)
			}
			if len(k) > 200 {
				k = k[:200]
			}
			m[k] = g.Value(lookup(g.Schema, ts.Items), noise/2, depth+1)
		}
		return m, true
	case "Struct":
		m := map[string]interface{}{}
		for _, f := range ts.Fields {
			if f.Required || !g.deep(depth, 4) {
				m[f.Name] = g.Value(&f.TypeSpec, noise/2, depth+1)
			}
		}
		switch g.Intn(3) {
		case 0:
			if len(ts.Fields) > 0 {
				delete(m, ts.Fields[g.Intn(len(ts.Fields))].Name)
			}
		case 1:
			m["unknownField"] = true
		case 2:
			if len(ts.Fields) > 0 {
				f := ts.Fields[g.Intn(len(ts.Fields))]
				v := m[f.Name]
				delete(m, f.Name)
				m[strings.ToUpper(f.Name[:1])+f.Name[1:]] = v
			}
		}
		return m, true
	case "Union":
		m := map[string]interface{}{}
		for i, v := range ts.Variants {
			if i == 0 || g.Bool() {
				m[v.Name] = g.Value(&v.TypeSpec, noise/2, depth+1)
			}
		}
		if g.P(30) {
			m = map[string]interface{}{"other": true}
		}
		return m, true
	case "Bool":
		return g.str("true"), true
	}
	return nil, false
}
