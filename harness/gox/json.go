package gox

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/boynton/sadl"

	"verif/gen"
	"verif/mon"
)

// Values makes JSON values of SADL types that a Go struct with omitted zero values can hold without loss.
type Values struct {
	S *sadl.Schema
	G *gen.G
	// Runtime: decimals are JSON numbers only
	Runtime bool
}

func (v *Values) find(n string) *sadl.TypeDef {
	for _, td := range v.S.Types {
		if td.Name == n {
			return td
		}
	}
	return nil
}

func (v *Values) Resolve(ts *sadl.TypeSpec) *sadl.TypeSpec {
	if td := v.find(ts.Type); td != nil {
		return &td.TypeSpec
	}
	return ts
}

func (v *Values) Named(n string) *sadl.TypeSpec {
	if td := v.find(n); td != nil {
		return &td.TypeSpec
	}
	return &sadl.TypeSpec{Type: n}
}

func EnumText(el *sadl.EnumElementDef) string {
	if s := el.Annotations["x_enumValue"]; s != "" {
		return s
	}
	return el.Symbol
}

var stamps = []string{"2019-02-03T22:48:19.043Z", "2020-02-29T00:00:00.000Z", "1999-12-31T23:59:59.999Z", "0099-06-01T01:02:03.500Z"}
var decs = []string{"3.141592653589793238462643383279502884197", "0.1", "-12.5", "100", "123456789012345678901234567890.25", "-0.000001"}

// Value is a JSON value (json.Number for numbers) of the type.
func (v *Values) Value(ts *sadl.TypeSpec, depth int) interface{} {
	g := v.G
	ts = v.Resolve(ts)
	num := func(s string) interface{} { return json.Number(s) }
	switch ts.Type {
	case "Bool":
		return true
	case "Int8":
		return num(g.Pick("127", "-128", "5", "-1"))
	case "Int16":
		return num(g.Pick("32767", "-32768", "300", "-1"))
	case "Int32":
		return num(g.Pick("2147483647", "-2147483648", "70000", "-1"))
	case "Int64":
		return num(g.Pick("9223372036854775807", "-9223372036854775808", "9007199254740993", "-1"))
	case "Float32":
		return num(g.Pick("1.5", "-0.25", "16777216", "1024.125"))
	case "Float64":
		return num(g.Pick("0.1", "-2.5e-7", "1e300", "3.141592653589793"))
	case "Decimal":
		s := g.PickS(decs)
		if !v.Runtime && g.Bool() {
			return s
		}
		return num(s)
	case "String":
		return g.Pick("hello", "a \"quoted\" one", "é日本", "x\ny", "<&>", "0")
	case "UUID":
		return g.Pick("1ce437b0-1dd2-11b2-bc26-003ee1be85f9", "00000000-0000-0000-0000-000000000001")
	case "Bytes":
		return base64.StdEncoding.EncodeToString([]byte(g.Pick("abc", "\x00\xff", "hello world")))
	case "Timestamp":
		return g.PickS(stamps)
	case "UnitValue":
		return g.Pick("1.5 kg", "100 USD", "-3 C")
	case "Any":
		switch g.Intn(4) {
		case 0:
			return "x"
		case 1:
			return num("1.5")
		case 2:
			return []interface{}{"a", true, nil}
		}
		return map[string]interface{}{"k": num("1"), "n": nil}
	case "Enum":
		return EnumText(ts.Elements[g.Intn(len(ts.Elements))])
	case "Array":
		l := []interface{}{}
		if depth < 4 {
			for i, n := 0, g.Range(0, 3); i < n; i++ {
				l = append(l, v.Value(&sadl.TypeSpec{Type: ts.Items}, depth+1))
			}
		}
		return l
	case "Map":
		m := map[string]interface{}{}
		if depth < 4 {
			for i, n := 0, g.Range(0, 3); i < n; i++ {
				k := fmt.Sprint(v.Value(&sadl.TypeSpec{Type: ts.Keys}, depth+1))
				m[k] = v.Value(&sadl.TypeSpec{Type: ts.Items}, depth+1)
			}
		}
		return m
	case "Struct":
		m := map[string]interface{}{}
		for _, f := range ts.Fields {
			if f.Required || depth < 4 && g.P(70) {
				m[f.Name] = v.Value(&f.TypeSpec, depth+1)
			}
		}
		return m
	case "Union":
		u := ts.Variants[g.Intn(len(ts.Variants))]
		if depth >= 4 {
			u = ts.Variants[0]
		}
		return map[string]interface{}{u.Name: v.Value(&u.TypeSpec, depth+1)}
	}
	mon.Bug("no value for %s", ts.Type)
	return nil
}

func rat(x interface{}) string {
	r, ok := new(big.Rat).SetString(fmt.Sprint(x))
	if !ok {
		return "?" + fmt.Sprint(x)
	}
	return r.RatString()
}

func zero(x interface{}) bool {
	switch t := x.(type) {
	case nil:
		return true
	case bool:
		return !t
	case string:
		return t == ""
	case json.Number:
		return rat(t) == "0"
	case []interface{}:
		return len(t) == 0
	case map[string]interface{}:
		return len(t) == 0
	}
	return false
}

// Canon normalises a decoded JSON value of the type: decimals and numbers as rationals, optional zero values dropped.
func (v *Values) Canon(ts *sadl.TypeSpec, x interface{}) string {
	ts = v.Resolve(ts)
	switch ts.Type {
	case "Int8", "Int16", "Int32", "Int64":
		return rat(x)
	case "Float32", "Float64":
		if n, ok := x.(json.Number); ok {
			f, _ := n.Float64()
			return fmt.Sprint(f)
		}
		return "?" + fmt.Sprint(x)
	case "Decimal":
		// precision is limited to 250 bits
		f, _, err := big.ParseFloat(fmt.Sprint(x), 10, 250, big.ToNearestEven)
		if err != nil {
			return "?" + fmt.Sprint(x)
		}
		return f.Text('g', 60)
	case "Timestamp":
		s, ok := x.(string)
		if !ok {
			return "?" + fmt.Sprint(x)
		}
		return s
	case "Array":
		l, ok := x.([]interface{})
		if x != nil && !ok {
			return "?" + fmt.Sprint(x)
		}
		var o []string
		for _, e := range l {
			o = append(o, v.Canon(&sadl.TypeSpec{Type: ts.Items}, e))
		}
		return "[" + strings.Join(o, ",") + "]"
	case "Map":
		m, ok := x.(map[string]interface{})
		if x != nil && !ok {
			return "?" + fmt.Sprint(x)
		}
		var o []string
		for k, e := range m {
			o = append(o, fmt.Sprintf("%q:", k)+v.Canon(&sadl.TypeSpec{Type: ts.Items}, e))
		}
		sort.Strings(o)
		return "{" + strings.Join(o, ",") + "}"
	case "Struct", "Union":
		m, ok := x.(map[string]interface{})
		if !ok {
			return "?" + fmt.Sprint(x)
		}
		var o []string
		seen := 0
		one := func(n string, f *sadl.TypeSpec, req bool) {
			e, ok := m[n]
			if !ok {
				return
			}
			seen++
			if !req && (zero(e) && v.Resolve(f).Type != "Struct" && v.Resolve(f).Type != "Union" || e == nil) {
				return
			}
			c := v.Canon(f, e)
			if !req && v.Resolve(f).Type == "Union" && c == "{}" {
				return
			}
			o = append(o, fmt.Sprintf("%q:", n)+c)
		}
		for _, f := range ts.Fields {
			one(f.Name, &f.TypeSpec, f.Required)
		}
		for _, f := range ts.Variants {
			one(f.Name, &f.TypeSpec, false)
		}
		if seen != len(m) {
			return "?extra members " + mon.JSON(m)
		}
		sort.Strings(o)
		return "{" + strings.Join(o, ",") + "}"
	case "Any":
		return canonAny(x)
	}
	return mon.JSON(x)
}

func canonAny(x interface{}) string {
	switch t := x.(type) {
	case json.Number:
		return rat(t)
	case []interface{}:
		var o []string
		for _, e := range t {
			o = append(o, canonAny(e))
		}
		return "[" + strings.Join(o, ",") + "]"
	case map[string]interface{}:
		var o []string
		for k, e := range t {
			o = append(o, fmt.Sprintf("%q:", k)+canonAny(e))
		}
		sort.Strings(o)
		return "{" + strings.Join(o, ",") + "}"
	}
	return mon.JSON(x)
}

// Bad is a JSON value that a Go value of the type cannot hold ("" when there is none).
func (v *Values) Bad(ts *sadl.TypeSpec) interface{} {
	g := v.G
	ts = v.Resolve(ts)
	switch ts.Type {
	case "Bool":
		return g.PickS2("true", json.Number("1"))
	case "Int8":
		return g.PickS2(json.Number("128"), json.Number("1.5"), "1", true)
	case "Int16":
		return g.PickS2(json.Number("-32769"), json.Number("1.5"), "x")
	case "Int32":
		return g.PickS2(json.Number("2147483648"), "x", json.Number("0.1"))
	case "Int64":
		return g.PickS2(json.Number("9223372036854775808"), "x", json.Number("0.1"))
	case "Float32", "Float64":
		return g.PickS2("x", true, []interface{}{})
	case "Decimal":
		return g.PickS2("abc", true, []interface{}{}, "1.2.3", "")
	case "Timestamp":
		return g.PickS2("yesterday", json.Number("1"), "2019-02-30T00:00:00.000Z", "2019-02-03", true)
	case "Enum":
		return g.PickS2("NOT_A_SYMBOL", json.Number("1"), true, map[string]interface{}{})
	case "String", "UUID":
		return g.PickS2(json.Number("1"), true, map[string]interface{}{})
	case "Array", "Bytes":
		return g.PickS2(json.Number("1"), map[string]interface{}{}, true)
	case "Map", "Struct", "Union":
		return g.PickS2(json.Number("1"), []interface{}{}, "x")
	}
	return nil
}
