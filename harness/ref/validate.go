// Package ref holds the reference models that the monitors compare the real code with.
// It is written from the documented meaning of SADL, and does not call sadl's own logic.
package ref

import (
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/boynton/sadl"
)

type Types map[string]*sadl.TypeSpec

func TypesOf(s *sadl.Schema) Types {
	t := Types{}
	for _, n := range []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp",
		"UnitValue", "UUID", "Array", "Map", "Struct", "Enum", "Union", "Any"} {
		t[n] = &sadl.TypeSpec{Type: n}
	}
	for _, td := range s.Types {
		t[td.Name] = &td.TypeSpec
	}
	return t
}

func rat(d *sadl.Decimal) *big.Rat {
	r, _ := d.Float.Rat(nil)
	if r == nil {
		r = new(big.Rat)
	}
	return r
}

func text(v interface{}) (string, bool) {
	switch s := v.(type) {
	case string:
		return s, true
	case *string:
		return *s, true
	}
	return "", false
}

var uuidRe = regexp.MustCompile(`^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$`)
var stampRe = regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|[+-]00:?00)$`)

func IsUUID(s string) bool { return uuidRe.MatchString(s) }

func IsStamp(s string) bool {
	m := stampRe.FindStringSubmatch(s)
	if m == nil {
		return false
	}
	n := func(i int) int { v, _ := strconv.Atoi(m[i]); return v }
	y, mo, d := n(1), n(2), n(3)
	if mo < 1 || mo > 12 || d < 1 || n(4) > 23 || n(5) > 59 || n(6) > 59 {
		return false
	}
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[mo-1]
	if mo == 2 && (y%4 == 0 && y%100 != 0 || y%400 == 0) {
		days = 29
	}
	return d <= days
}

// StampTime is the instant that a well-formed timestamp text denotes.
func StampTime(s string) time.Time {
	m := stampRe.FindStringSubmatch(s)
	n := func(i int) int { v, _ := strconv.Atoi(m[i]); return v }
	ns := 0
	if m[7] != "" {
		ns, _ = strconv.Atoi((m[7][1:] + "000000000")[:9])
	}
	return time.Date(n(1), time.Month(n(2)), n(3), n(4), n(5), n(6), ns, time.UTC)
}

var numRe = regexp.MustCompile(`^[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?$`)

var width = map[string]uint{"Int8": 7, "Int16": 15, "Int32": 31, "Int64": 63}

// Conforms is the specification of value validation.
func (t Types) Conforms(ts *sadl.TypeSpec, v interface{}) bool {
	inSize := func(n int) bool {
		return (ts.MinSize == nil || int64(n) >= *ts.MinSize) && (ts.MaxSize == nil || int64(n) <= *ts.MaxSize)
	}
	switch ts.Type {
	case "Any", "Bytes":
		return true
	case "Bool":
		switch v.(type) {
		case bool, *bool:
			return true
		}
		return false
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		d, ok := v.(*sadl.Decimal)
		if !ok {
			return false
		}
		x := rat(d)
		var lo, hi *big.Rat
		if w, ok := width[ts.Type]; ok {
			if !x.IsInt() {
				return false
			}
			p := new(big.Int).Lsh(big.NewInt(1), w)
			lo = new(big.Rat).SetInt(new(big.Int).Neg(p))
			hi = new(big.Rat).SetInt(new(big.Int).Sub(p, big.NewInt(1)))
		}
		if ts.Min != nil {
			lo = rat(ts.Min)
		}
		if ts.Max != nil {
			hi = rat(ts.Max)
		}
		return (lo == nil || x.Cmp(lo) >= 0) && (hi == nil || x.Cmp(hi) <= 0)
	case "String":
		s, ok := text(v)
		if !ok || !inSize(len(s)) {
			return false
		}
		if ts.Values != nil {
			for _, x := range ts.Values {
				if x == s {
					return true
				}
			}
			return false
		}
		if ts.Pattern != "" {
			return regexp.MustCompile(ts.Pattern).MatchString(s)
		}
		return true
	case "Enum":
		s, ok := text(v)
		if !ok {
			return false
		}
		for _, e := range ts.Elements {
			if e.Symbol == s {
				return true
			}
		}
		return false
	case "UUID":
		s, ok := text(v)
		return ok && IsUUID(s)
	case "Timestamp":
		s, ok := text(v)
		return ok && IsStamp(s)
	case "UnitValue":
		s, ok := text(v)
		if !ok {
			return false
		}
		i := strings.IndexByte(s, ' ')
		if i < 1 || !numRe.MatchString(s[:i]) {
			return false
		}
		vt, ut := t[ts.Value], t[ts.Unit]
		if vt == nil || ut == nil {
			return false
		}
		d, err := sadl.ParseDecimal(s[:i])
		return err == nil && t.Conforms(vt, d) && t.Conforms(ut, s[i+1:])
	case "Array":
		a, ok := v.([]interface{})
		if !ok || !inSize(len(a)) {
			return false
		}
		it := t[ts.Items]
		if it == nil {
			return false
		}
		for _, x := range a {
			if !t.Conforms(it, x) {
				return false
			}
		}
		return true
	case "Map":
		m, ok := v.(map[string]interface{})
		if !ok || !inSize(len(m)) {
			return false
		}
		kt, it := t[ts.Keys], t[ts.Items]
		if kt == nil || it == nil {
			return false
		}
		for k, x := range m {
			if !t.Conforms(kt, k) || !t.Conforms(it, x) {
				return false
			}
		}
		return true
	case "Struct":
		m, ok := v.(map[string]interface{})
		if !ok {
			return false
		}
		seen := 0
		for _, f := range ts.Fields {
			x, present := m[f.Name]
			if !present {
				if f.Required {
					return false
				}
				continue
			}
			seen++
			if !t.Conforms(&f.TypeSpec, x) {
				return false
			}
		}
		return seen == len(m)
	case "Union":
		m, ok := v.(map[string]interface{})
		if !ok || len(m) != 1 {
			return false
		}
		for _, vd := range ts.Variants {
			if x, ok := m[vd.Name]; ok {
				return t.Conforms(&vd.TypeSpec, x)
			}
		}
		return false
	}
	nt := t[ts.Type]
	if nt == nil {
		return false
	}
	return t.Conforms(nt, v)
}
