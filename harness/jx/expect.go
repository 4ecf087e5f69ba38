package jx

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/boynton/sadl"

	"verif/gen"
	"verif/gox"
	"verif/mon"
)

// API computes the Java declarations and JSON values a model stands for.
type API struct {
	S                   *sadl.Schema
	G                   *gen.G
	Model               string // package
	Immutable, Instants bool
	Pretty, ServiceExc  bool
	Service             string
	exc                 map[string]bool
}

func (a *API) find(n string) *sadl.TypeDef {
	for _, td := range a.S.Types {
		if td.Name == n {
			return td
		}
	}
	return nil
}

func (a *API) Resolve(ts *sadl.TypeSpec) *sadl.TypeSpec {
	if td := a.find(ts.Type); td != nil {
		return &td.TypeSpec
	}
	return ts
}

func (a *API) named(n string) *sadl.TypeSpec { return a.Resolve(&sadl.TypeSpec{Type: n}) }

var boxed = map[string]string{"Bool": "Boolean", "Int8": "Byte", "Int16": "Short", "Int32": "Integer", "Int64": "Long", "Float32": "Float", "Float64": "Double"}
var prim = map[string]string{"Bool": "boolean", "Int8": "byte", "Int16": "short", "Int32": "int", "Int64": "long", "Float32": "float", "Float64": "double"}

// Type is the Java type of a field; in is the class (for inline types) and field the name.
func (a *API) Type(ts *sadl.TypeSpec, required bool, in, field string) string {
	t := a.Resolve(ts)
	if prim[t.Type] != "" {
		if required {
			return prim[t.Type]
		}
		return "java.lang." + boxed[t.Type]
	}
	switch t.Type {
	case "String":
		return "java.lang.String"
	case "Decimal":
		return "java.math.BigDecimal"
	case "Bytes":
		return "byte[]"
	case "UUID":
		return "java.util.UUID"
	case "Any":
		return "java.lang.Object"
	case "Timestamp":
		if a.Instants {
			return "java.time.Instant"
		}
		return a.Model + ".Timestamp"
	case "Array":
		return "java.util.List<" + a.Type(&sadl.TypeSpec{Type: t.Items}, false, "", "") + ">"
	case "Map":
		return "java.util.Map<" + a.Type(&sadl.TypeSpec{Type: t.Keys}, false, "", "") + ", " + a.Type(&sadl.TypeSpec{Type: t.Items}, false, "", "") + ">"
	}
	if t == ts { // inline
		return in + "$" + gox.Cap(field)
	}
	return a.Model + "." + gox.Cap(ts.Type)
}

func rat(x interface{}) string {
	r, ok := new(big.Rat).SetString(fmt.Sprint(x))
	if !ok {
		return "?" + fmt.Sprint(x)
	}
	return r.RatString()
}

func (a *API) annos(ts *sadl.TypeSpec, required bool) string {
	t := a.Resolve(ts)
	var l []string
	if required && prim[t.Type] == "" {
		l = append(l, "@NotNull{}")
	}
	if t.Type == "String" {
		if t.Pattern != "" {
			l = append(l, "@Pattern{regexp="+t.Pattern+"}")
		}
		var s []string
		if t.MaxSize != nil {
			s = append(s, fmt.Sprintf("max=%d", *t.MaxSize))
		}
		if t.MinSize != nil && *t.MinSize != 0 {
			s = append(s, fmt.Sprintf("min=%d", *t.MinSize))
		}
		if t.MaxSize != nil || t.MinSize != nil {
			l = append(l, "@Size{"+strings.Join(s, ", ")+"}")
		}
	}
	if gen.Numeric[t.Type] {
		if t.Min != nil {
			l = append(l, "@Min{value="+rat(t.Min)+"}")
		}
		if t.Max != nil {
			l = append(l, "@Max{value="+rat(t.Max)+"}")
		}
	}
	sort.Strings(l)
	if len(l) == 0 {
		return ""
	}
	return " " + strings.Join(l, " ")
}

type decls map[string]map[string]bool

func (d decls) add(class string, lines ...string) {
	if d[class] == nil {
		d[class] = map[string]bool{}
	}
	for _, l := range lines {
		d[class][l] = true
	}
}

func (a *API) enum(d decls, c string, els []*sadl.EnumElementDef) {
	d.add(c, "enum public", "method public java.lang.String toString()", "method public static "+c+" fromString(java.lang.String)", "method public static "+c+"[] values()",
		"method public static "+c+" valueOf(java.lang.String)")
	for i, el := range els {
		d.add(c, fmt.Sprintf("constant %d %s", i, el.Symbol))
	}
}

func (a *API) structure(d decls, c string, fields []*sadl.StructFieldDef, exc bool) {
	super := "java.lang.Object"
	if exc {
		super = "java.lang.RuntimeException"
	}
	d.add(c, "class extends "+super+" public")
	var types []string
	b := c + "$" + c[strings.LastIndexAny(c, ".$")+1:] + "Builder"
	for _, f := range fields {
		t := a.Type(&f.TypeSpec, f.Required, c, f.Name)
		types = append(types, t)
		an := a.annos(&f.TypeSpec, f.Required)
		if a.Immutable {
			d.add(c, "field private final "+t+" "+f.Name+an, "method public "+t+" get"+gox.Cap(f.Name)+"()")
			d.add(b, "field private "+t+" "+f.Name, "method public "+b+" "+f.Name+"("+t+")")
		} else {
			d.add(c, "field public "+t+" "+f.Name+an, "method public "+c+" "+f.Name+"("+t+")")
		}
		if rt := a.Resolve(&f.TypeSpec); rt == &f.TypeSpec {
			switch rt.Type {
			case "Struct":
				a.structure(d, c+"$"+gox.Cap(f.Name), rt.Fields, false)
			case "Enum":
				a.enum(d, c+"$"+gox.Cap(f.Name), rt.Elements)
			}
		}
	}
	if a.Immutable {
		d.add(c, "constructor public ("+strings.Join(types, ", ")+")", "method public "+b+" toBuilder()", "method public static "+b+" builder()")
		d.add(b, "class extends java.lang.Object public", "constructor public ()", "constructor public ("+c+")", "method public "+c+" build()")
	} else {
		d.add(c, "constructor public ()")
	}
	if a.Pretty {
		d.add(c, "method public java.lang.String toString()")
	}
}

// Exceptions are the types that are thrown.
func (a *API) Exceptions() map[string]bool {
	e := map[string]bool{}
	for _, h := range a.S.Http {
		for _, x := range h.Exceptions {
			e[x.Type] = !a.ServiceExc
		}
	}
	return e
}

func Req(h *sadl.HttpDef) []*sadl.StructFieldDef {
	var l []*sadl.StructFieldDef
	for _, p := range h.Inputs {
		l = append(l, &p.StructFieldDef)
	}
	return l
}

func Res(h *sadl.HttpDef) []*sadl.StructFieldDef {
	var l []*sadl.StructFieldDef
	for _, p := range h.Expected.Outputs {
		l = append(l, &p.StructFieldDef)
	}
	return l
}

// Expected lists the declarations of the model package.
func (a *API) Expected() map[string]map[string]bool {
	d := decls{}
	exc := a.Exceptions()
	for _, td := range a.S.Types {
		c := a.Model + "." + gox.Cap(td.Name)
		switch td.Type {
		case "Struct":
			a.structure(d, c, td.Fields, exc[td.Name])
		case "Enum":
			a.enum(d, c, td.Elements)
		case "UnitValue":
			v, u := a.Type(&sadl.TypeSpec{Type: td.Value}, true, "", ""), a.Type(&sadl.TypeSpec{Type: td.Unit}, true, "", "")
			d.add(c, "class extends java.lang.Object public", "field public final "+v+" value", "field public final "+u+" unit", "constructor public ("+v+", "+u+")",
				"constructor public (java.lang.String)", "method public java.lang.String toString()")
		case "Union":
			d.add(c, "class extends java.lang.Object public", "field public "+c+"$Variant variant")
			d.add(c+"$Variant", "enum public")
			var types []string
			for i, v := range td.Variants {
				t := a.Type(&v.TypeSpec, false, c, v.Name)
				types = append(types, t)
				d.add(c, "field public final "+t+" "+v.Name+a.annos(&v.TypeSpec, false), "method public static "+c+" of"+gox.Cap(v.Name)+"("+t+")")
				d.add(c+"$Variant", fmt.Sprintf("constant %d %s", i, v.Name))
			}
			d.add(c, "constructor private ("+strings.Join(types, ", ")+")")
			if a.Pretty {
				d.add(c, "method public java.lang.String toString()")
			}
		}
	}
	iface := a.Model + "." + a.Service
	d.add(iface, "interface public")
	for _, h := range a.S.Http {
		n := a.Model + "." + gox.Cap(h.Name)
		a.structure(d, n+"Request", Req(h), false)
		a.structure(d, n+"Response", Res(h), false)
		d.add(iface, "method public "+n+"Response "+strings.ToLower(h.Name[:1])+h.Name[1:]+"("+n+"Request)")
	}
	return d
}

var limit = regexp.MustCompile(`@(?:Decimal)?(Min|Max)\{value=([^}]*)\}`)
var annotation = regexp.MustCompile(`@[A-Za-z]+\{(?:[^{}]|\{[^{}]*\})*\}`)

// norm writes limits in one form.
func norm(line string) string {
	i := strings.Index(line, " @")
	if i < 0 {
		return line
	}
	head, rest := line[:i], line[i:]
	rest = limit.ReplaceAllStringFunc(rest, func(s string) string {
		m := limit.FindStringSubmatch(s)
		return "@" + m[1] + "{value=" + rat(m[2]) + "}"
	})
	if strings.Contains(rest, "@Pattern") {
		return head + rest
	}
	l := annotation.FindAllString(rest, -1)
	sort.Strings(l)
	return head + " " + strings.Join(l, " ")
}

// Compare checks the classes of the model package against the model.
func (a *API) Compare(classes map[string][]string, extra map[string]bool) []string {
	var diffs []string
	want := a.Expected()
	for c, lines := range want {
		got, ok := classes[c]
		if !ok {
			diffs = append(diffs, "there is no class "+c)
			continue
		}
		have := map[string]bool{}
		for _, l := range got {
			l = norm(l)
			have[l] = true
			k, _, _ := strings.Cut(l, " ")
			switch {
			case lines[l]:
			case k == "method" && want[c]["interface public"]:
				diffs = append(diffs, "unexpected in "+c+": "+l)
			case k == "method", l == "field private java.lang.String repr", k == "constructor" && strings.HasPrefix(got[0], "enum"):
			default:
				diffs = append(diffs, "unexpected in "+c+": "+l)
			}
		}
		for l := range lines {
			if !have[l] {
				diffs = append(diffs, "missing in "+c+": "+l)
			}
		}
	}
	for c := range classes {
		top, _, _ := strings.Cut(c, "$")
		if want[c] == nil && !extra[top] {
			diffs = append(diffs, "unexpected class "+c)
		}
	}
	sort.Strings(diffs)
	return diffs
}

// ---------------------------------------------------------------- values

var stamps = []string{"2019-02-03T22:48:19.043Z", "2020-02-29T00:00:00.000Z", "1999-12-31T23:59:59.999Z", "0099-06-01T01:02:03.500Z"}
var decs = []string{"3.141592653589793238462643383279502884197", "0.1", "-12.5", "100", "123456789012345678901234567890.25", "-0.000001"}

// Value is a JSON value (json.Number for numbers) of the type.
func (a *API) Value(ts *sadl.TypeSpec, depth int) interface{} {
	g := a.G
	ts = a.Resolve(ts)
	num := func(s string) interface{} { return json.Number(s) }
	switch ts.Type {
	case "Bool":
		return g.Bool()
	case "Int8":
		return num(g.Pick("127", "-128", "5", "-1", "0"))
	case "Int16":
		return num(g.Pick("32767", "-32768", "300", "-1", "0"))
	case "Int32":
		return num(g.Pick("2147483647", "-2147483648", "70000", "-1", "0"))
	case "Int64":
		return num(g.Pick("9223372036854775807", "-9223372036854775808", "9007199254740993", "-1", "0"))
	case "Float32":
		return num(g.Pick("1.5", "-0.25", "16777216", "1024.125", "0"))
	case "Float64":
		return num(g.Pick("0.1", "-2.5e-7", "1e300", "3.141592653589793", "0"))
	case "Decimal":
		return num(g.PickS(decs))
	case "String":
		return g.Pick("hello", "a \"quoted\" one", "é日本", "x\ny", "<&>", "0", "")
	case "UUID":
		return g.Pick("1ce437b0-1dd2-11b2-bc26-003ee1be85f9", "00000000-0000-0000-0000-000000000001")
	case "Bytes":
		return base64.StdEncoding.EncodeToString([]byte(g.Pick("abc", "\x00\xff", "hello world", "")))
	case "Timestamp":
		return g.PickS(stamps)
	case "UnitValue":
		u := Str(a.Value(&sadl.TypeSpec{Type: ts.Unit}, depth+1))
		if u == "" {
			u = g.Pick("kg", "square feet")
		}
		return Str(a.Value(&sadl.TypeSpec{Type: ts.Value}, depth+1)) + " " + u
	case "Any":
		switch g.Intn(4) {
		case 0:
			return "x"
		case 1:
			return num("1.5")
		case 2:
			return []interface{}{"a", true, nil}
		}
		return map[string]interface{}{"k": num("1"), "n": nil}
	case "Enum":
		return gox.EnumText(ts.Elements[g.Intn(len(ts.Elements))])
	case "Array":
		l := []interface{}{}
		if depth < 4 {
			for i, n := 0, g.Range(0, 3); i < n; i++ {
				l = append(l, a.Value(&sadl.TypeSpec{Type: ts.Items}, depth+1))
			}
		}
		return l
	case "Map":
		m := map[string]interface{}{}
		if depth < 4 {
			for i, n := 0, g.Range(0, 3); i < n; i++ {
				m[Str(a.Value(&sadl.TypeSpec{Type: ts.Keys}, depth+1))] = a.Value(&sadl.TypeSpec{Type: ts.Items}, depth+1)
			}
		}
		return m
	case "Struct":
		return a.Fields(ts.Fields, depth)
	case "Union":
		u := ts.Variants[g.Intn(len(ts.Variants))]
		if depth >= 4 {
			u = ts.Variants[0]
		}
		return map[string]interface{}{u.Name: a.Value(&u.TypeSpec, depth+1)}
	}
	mon.Bug("no value for %s", ts.Type)
	return nil
}

func (a *API) Fields(fields []*sadl.StructFieldDef, depth int) map[string]interface{} {
	m := map[string]interface{}{}
	for _, f := range fields {
		if f.Required || depth < 4 && a.G.P(70) {
			m[f.Name] = a.Value(&f.TypeSpec, depth+1)
		}
	}
	return m
}

func empty(x interface{}) bool {
	switch t := x.(type) {
	case nil:
		return true
	case string:
		return t == ""
	case []interface{}:
		return len(t) == 0
	case map[string]interface{}:
		return len(t) == 0
	}
	return false
}

// Canon normalises a decoded JSON value of the type; optional empty values are as good as absent.
func (a *API) Canon(ts *sadl.TypeSpec, x interface{}) string {
	ts = a.Resolve(ts)
	bad := "?" + mon.JSON(x)
	switch ts.Type {
	case "Int8", "Int16", "Int32", "Int64", "Decimal":
		if _, ok := x.(json.Number); ok {
			return rat(x)
		}
		return bad
	case "Float32", "Float64":
		if n, ok := x.(json.Number); ok {
			f, _ := n.Float64()
			return fmt.Sprint(f)
		}
		return bad
	case "Timestamp":
		if s, ok := x.(string); ok {
			if t, err := time.Parse(time.RFC3339Nano, s); err == nil {
				return t.UTC().Format(time.RFC3339Nano)
			}
		}
		return bad
	case "UnitValue":
		s, ok := x.(string)
		v, u, ok2 := strings.Cut(s, " ")
		if !ok || !ok2 {
			return bad
		}
		return a.Canon(&sadl.TypeSpec{Type: ts.Value}, json.Number(v)) + " " + u
	case "Array":
		l, ok := x.([]interface{})
		if !ok {
			return bad
		}
		var o []string
		for _, e := range l {
			o = append(o, a.Canon(&sadl.TypeSpec{Type: ts.Items}, e))
		}
		return "[" + strings.Join(o, ",") + "]"
	case "Map":
		m, ok := x.(map[string]interface{})
		if !ok {
			return bad
		}
		var o []string
		for k, e := range m {
			kk := fmt.Sprintf("%q", k)
			if kt := a.named(ts.Keys).Type; kt != "String" && kt != "Enum" {
				kk = a.Canon(&sadl.TypeSpec{Type: ts.Keys}, k)
			}
			o = append(o, kk+":"+a.Canon(&sadl.TypeSpec{Type: ts.Items}, e))
		}
		sort.Strings(o)
		return "{" + strings.Join(o, ",") + "}"
	case "Struct", "Union":
		m, ok := x.(map[string]interface{})
		if !ok {
			return bad
		}
		var o []string
		seen := 0
		for _, f := range ts.Fields {
			e, ok := m[f.Name]
			if !ok {
				continue
			}
			seen++
			if t := a.Resolve(&f.TypeSpec).Type; !f.Required && (e == nil || empty(e) && t != "Struct" && t != "Union" && t != "Enum") {
				continue
			}
			o = append(o, fmt.Sprintf("%q:", f.Name)+a.Canon(&f.TypeSpec, e))
		}
		for _, f := range ts.Variants {
			if e, ok := m[f.Name]; ok {
				seen++
				o = append(o, fmt.Sprintf("%q:", f.Name)+a.Canon(&f.TypeSpec, e))
			}
		}
		if seen != len(m) {
			return "?extra members " + mon.JSON(m)
		}
		sort.Strings(o)
		return "{" + strings.Join(o, ",") + "}"
	case "Any":
		return canonAny(x)
	}
	return mon.JSON(x)
}

func canonAny(x interface{}) string {
	switch t := x.(type) {
	case json.Number:
		return rat(t)
	case []interface{}:
		var o []string
		for _, e := range t {
			o = append(o, canonAny(e))
		}
		return "[" + strings.Join(o, ",") + "]"
	case map[string]interface{}:
		var o []string
		for k, e := range t {
			o = append(o, fmt.Sprintf("%q:", k)+canonAny(e))
		}
		sort.Strings(o)
		return "{" + strings.Join(o, ",") + "}"
	}
	return mon.JSON(x)
}

// Bad is a JSON value that is certainly not readable as the type (nil when there is none).
func (a *API) Bad(ts *sadl.TypeSpec) interface{} {
	g := a.G
	ts = a.Resolve(ts)
	obj := map[string]interface{}{}
	switch ts.Type {
	case "Int8":
		return g.PickS2(json.Number("256"), json.Number("-129"), "x", obj)
	case "Int16":
		return g.PickS2(json.Number("-32769"), json.Number("32768"), "x", obj)
	case "Int32":
		return g.PickS2(json.Number("2147483648"), "x", obj)
	case "Int64":
		return g.PickS2(json.Number("9223372036854775808"), "x", obj)
	case "Float32", "Float64", "Decimal":
		return g.PickS2("x", obj)
	case "Bool":
		return g.PickS2("maybe", obj)
	case "Timestamp":
		if a.Instants {
			return g.PickS2("yesterday", "2019-02-30T00:00:00.000Z", "2019-02-03")
		}
		return nil
	case "UUID":
		return g.PickS2("not-a-uuid", obj)
	case "String":
		return obj
	case "Enum":
		return g.PickS2("NOT_A_SYMBOL", obj)
	case "UnitValue":
		return g.PickS2("x y", "5", obj)
	case "Array":
		return g.PickS2(obj, "x")
	case "Map", "Struct", "Union":
		return g.PickS2([]interface{}{}, "x")
	case "Bytes":
		return obj
	}
	return nil
}

func Dec(s string) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	err := d.Decode(&v)
	return v, err
}
