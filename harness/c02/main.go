// C02: scalar values survive their text and JSON representations exactly; malformed text is rejected.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/boynton/sadl"

	"verif/mon"
	"verif/ref"
)

var numRe = regexp.MustCompile(`^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$`)

var expRe = regexp.MustCompile(`[eE][+-]?(\d+)`)

func main() {
	mon.Main(mon.Spec{Prop: "C02",
		Rule:        "random decimal texts (up to 72 significant digits, exponents), instants (ms precision, years 1-9999, arbitrary zones), UUIDs and unit values incl. characters needing JSON escapes, plus mutations of each; text and JSON round trips compared with big.Rat / time / regexp references; non-trivial = distinct input text",
		Assumptions: []string{"Decimal exactness is required up to 72 significant digits (250 bit precision)", "no verdict on a one digit hour or a comma before the fraction in a timestamp, which the Go time parser tolerates", "Timestamp domain: years 0001-9999, the zero time is the documented unset value"},
		MinEvents:   map[string]int{"decimal": 1000, "timestamp": 1000, "uuid": 1000, "unitvalue": 1000, "rejected": 1000}},
		func(r *mon.Run) {
			n := r.Scale(40000, 600000)
			r.Cases("decimal", n, func(i int, g *mon.Rand) { decimal(r, g) })
			r.Cases("timestamp", n, func(i int, g *mon.Rand) { timestamp(r, g) })
			r.Cases("uuid", n/2, func(i int, g *mon.Rand) { uuid(r, g) })
			r.Cases("unitvalue", n/2, func(i int, g *mon.Rand) { unitvalue(r, g) })
			r.Cases("decimalvalue", 400, func(i int, g *mon.Rand) { decimalValue(r, g) })
		})
}

func digits(g *mon.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + g.Intn(10))
	}
	return string(b)
}

func decText(g *mon.Rand) string {
	s := ""
	if g.P(40) {
		s = "-"
	}
	switch g.Intn(6) {
	case 0:
		s += fmt.Sprint(g.Intn(1000))
	case 1:
		s += digits(g, g.Range(1, 36)) + "." + digits(g, g.Range(1, 36))
	case 2:
		s += digits(g, g.Range(1, 72))
	case 3:
		s += "0." + strings.Repeat("0", g.Intn(20)) + digits(g, g.Range(1, 50))
	case 4:
		s += digits(g, g.Range(1, 10)) + "." + digits(g, g.Range(1, 10)) + g.Pick("e", "E") + g.Pick("", "+", "-") + fmt.Sprint(g.Intn(30))
	case 5:
		s += g.Pick("9223372036854775807", "9223372036854775808", "2147483647", "2147483648", "0", "1", "0.1", "0.30000000000000004", "123456789.123456789")
	}
	return s
}

type box struct {
	V sadl.Decimal  `json:"v"`
	P *sadl.Decimal `json:"p,omitempty"`
	L []*sadl.Decimal
}

func decimal(r *mon.Run, g *mon.Rand) {
	s := decText(g)
	if g.P(30) { // mutate
		k := g.Intn(len(s) + 1)
		bad := g.Pick("x", ".", "-", "e", " ", "_", "0x", "\"", ",", "Inf", "NaN", "+", "")
		s = s[:k] + bad + s[k:]
		if g.P(5) {
			s = g.Pick("", "Inf", "-Inf", "+inf", "NaN", "abc", "--1", "1e", "e5", ".", "-", "true", "null", "1/2")
		}
	}
	r.Note("decimal " + s)
	if m := expRe.FindStringSubmatch(s); m != nil && len(strings.TrimLeft(m[1], "0")) > 2 {
		return // astronomically large exponents are outside the property's domain
	}
	valid := numRe.MatchString(s)
	var want *big.Rat
	if valid {
		want, valid = new(big.Rat).SetString(s)
	}
	if !valid && (strings.ContainsAny(s, "_") || strings.HasPrefix(s, "+") || strings.Contains(s, "0x") || strings.HasSuffix(s, ".")) {
		return // lexical freedom not covered by the property
	}
	if valid && (strings.HasPrefix(s, "+") || strings.Contains(s, "_")) {
		return
	}
	d, err := sadl.ParseDecimal(s)
	r.Observe("d "+s, true)
	r.Event("decimal")
	if !valid {
		r.Event("rejected")
		if err == nil {
			r.Failf("decimal-accept", "ParseDecimal accepted %q as %v", s, d)
		}
		var x sadl.Decimal
		if s != "null" && !strings.Contains(s, " ") && json.Unmarshal([]byte(s), &x) == nil {
			r.Failf("decimal-json-accept", "json decoded %q as Decimal %v", s, &x)
		}
		var y sadl.Decimal
		q, _ := json.Marshal(s)
		if json.Unmarshal(q, &y) == nil {
			r.Failf("decimal-json-accept", "json decoded %s as Decimal %v", q, &y)
		}
		return
	}
	if err != nil {
		r.Failf("decimal-reject", "ParseDecimal rejected %q: %v", s, err)
		return
	}
	exact := func(what, text string) {
		got, ok := new(big.Rat).SetString(text)
		if !ok || got.Cmp(want) != 0 {
			r.Failf("decimal-loss", "%s: %q became %q", what, s, text)
		}
	}
	exact("String", d.String())
	b, err := json.Marshal(d)
	if err != nil || !json.Valid(b) {
		r.Failf("decimal-marshal", "json.Marshal(%q) = %s, %v", s, b, err)
		return
	}
	exact("json", string(b))
	bx := box{V: *d, P: d, L: []*sadl.Decimal{d, d}}
	b, err = json.Marshal(&bx)
	if err != nil {
		r.Failf("decimal-marshal", "json.Marshal(struct with %q) = %v", s, err)
		return
	}
	var bx2 box
	if err := json.Unmarshal(b, &bx2); err != nil || bx2.P == nil || len(bx2.L) != 2 {
		r.Failf("decimal-unmarshal", "json round trip of %s: %v", b, err)
		return
	}
	for i, x := range []*sadl.Decimal{&bx2.V, bx2.P, bx2.L[0], bx2.L[1]} {
		exact(fmt.Sprintf("struct json %d", i), x.String())
		if x.AsBigFloat().Cmp(d.AsBigFloat()) != 0 {
			r.Failf("decimal-roundtrip", "json round trip changed the value of %q: %s", s, x)
		}
	}
	d2, err := sadl.ParseDecimal(d.String())
	if err != nil || d2.AsBigFloat().Cmp(d.AsBigFloat()) != 0 {
		r.Failf("decimal-roundtrip", "text round trip changed the value of %q: %v %v", s, d2, err)
	}
	if want.IsInt() && want.Num().IsInt64() {
		if d.AsInt64() != want.Num().Int64() {
			r.Failf("decimal-int64", "%q.AsInt64() = %d", s, d.AsInt64())
		}
		if n := want.Num().Int64(); n >= math.MinInt32 && n <= math.MaxInt32 && d.AsInt32() != int32(n) {
			r.Failf("decimal-int32", "%q.AsInt32() = %d", s, d.AsInt32())
		}
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil && d.AsFloat64() != f {
		r.Failf("decimal-float", "%q.AsFloat64() = %v, want %v", s, d.AsFloat64(), f)
	}
	f := math.Float64frombits(g.U64())
	if !math.IsNaN(f) && !math.IsInf(f, 0) {
		nd := sadl.NewDecimal(f)
		if nd.AsFloat64() != f {
			r.Failf("decimal-newdecimal", "NewDecimal(%v).AsFloat64() = %v", f, nd.AsFloat64())
		}
		text := strconv.FormatFloat(f, 'g', -1, 64)
		if f == math.Trunc(f) && math.Abs(f) <= 1<<63 {
			text = strconv.FormatFloat(f, 'f', -1, 64)
			if bi, acc := big.NewFloat(f).Int(nil); acc == big.Exact {
				text = bi.String()
			}
		}
		if p, err := sadl.ParseDecimal(text); err != nil || p.Cmp(&nd.Float) != 0 {
			r.Failf("decimal-newdecimal", "NewDecimal(%v) is not the decimal %v (%v)", f, p, err)
		}
		if p, err := sadl.ParseDecimal(nd.String()); err != nil || p.AsFloat64() != f {
			r.Failf("decimal-newdecimal", "NewDecimal(%v) text round trip = %v %v", f, p, err)
		}
	}
	r.Sample(map[string]string{"decimal": s, "json": string(b)})
}

func decimalValue(r *mon.Run, g *mon.Rand) {
	n := int64(g.U64())
	d := sadl.NewDecimal(1.5)
	type c struct {
		def  interface{}
		want string
	}
	for _, x := range []c{{int(n), fmt.Sprint(n)}, {n, fmt.Sprint(n)}, {int32(n), fmt.Sprint(int32(n))}, {int16(n), fmt.Sprint(int16(n))}, {int8(n), fmt.Sprint(int8(n))},
		{float64(n % 1000), fmt.Sprint(n % 1000)}, {float32(n % 1000), fmt.Sprint(n % 1000)}, {float32(n%1000) / 10, fmt.Sprint(float32(n%1000) / 10)}, {float64(n%1000) / 10, fmt.Sprint(float64(n%1000) / 10)}, {d, "1.5"}, {nil, ""}, {"12", ""}} {
		got := sadl.DecimalValue(nil, x.def)
		r.Observe(fmt.Sprintf("dv %T %v", x.def, x.def), true)
		s := ""
		if got != nil {
			s = got.String()
		}
		if s != x.want {
			r.Failf("decimalvalue", "DecimalValue(nil, %T %v) = %q, want %q", x.def, x.def, s, x.want)
		}
		if sadl.DecimalValue(d, x.def) != d {
			r.Failf("decimalvalue", "DecimalValue(d, %v) is not d", x.def)
		}
	}
}

func timestamp(r *mon.Run, g *mon.Rand) {
	if g.P(40) {
		// text direction
		y, mo, da, h, mi, se := g.Range(1, 9999), g.Range(1, 12), g.Range(1, 31), g.Range(0, 23), g.Range(0, 59), g.Range(0, 59)
		frac := ""
		if g.P(80) {
			frac = "." + digits(g, g.Range(1, 3))
		}
		sfx := g.Pick("Z", "Z", "Z", "+00:00", "-00:00", "+0000", "-0000")
		s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s%s", y, mo, da, h, mi, se, frac, sfx)
		if g.P(40) {
			k := g.Intn(len(s) + 1)
			switch g.Intn(8) {
			case 5: // digits where the zone should be, and stray characters of the format
				s = strings.TrimSuffix(s, sfx) + g.Pick("0", "00", "000", "0000", "00000", "1", "12", "00:00", "0:00", "+000", "-00:00Z", "Z0000", "Z+0000", "Z+00:00", "+00:00Z", " 0000", "+0000 ", "\n")
			case 6: // one character replaced
				if k == len(s) {
					k--
				}
				s = s[:k] + g.Pick("0", "1", "9", "+", "-", ":", ".", ",", "Z", "T", "t", " ", "/") + s[k+1:]
			case 7: // one character removed, or doubled
				if k == len(s) {
					k--
				}
				if g.Bool() {
					s = s[:k] + s[k+1:]
				} else {
					s = s[:k+1] + s[k:]
				}
			case 0:
				s = s[:k] + g.Pick("x", "-", ":", "T", "Z", " ") + s[k:]
			case 1:
				s = strings.TrimSuffix(s, sfx)
			case 2:
				s = strings.TrimSuffix(s, sfx) + g.Pick("+01:00", "-05:00", "+00:30", "-00:30", "+0030", "+10:00", "+0530", "z", "UTC", " GMT", "+00", "+00:01")
			case 3:
				s = strings.Replace(s, fmt.Sprintf("-%02d-", mo), g.Pick("-13-", "-00-"), 1)
			case 4:
				s = strings.Replace(s, fmt.Sprintf("T%02d", h), g.Pick("T24", "T99"), 1)
			}
		}
		r.Note("timestamp text " + s)
		r.Observe("tt "+s, true)
		ts, err := sadl.ParseTimestamp(s)
		valid := ref.IsStamp(s)
		q, _ := json.Marshal(s)
		var j sadl.Timestamp
		if g.Bool() {
			j = sadl.Timestamp{Time: time.Unix(1234567890, 5000000).UTC()}
		}
		jerr := json.Unmarshal(q, &j)
		if (err == nil) != valid || (jerr == nil) != valid {
			r.Failf("timestamp-verdict", "timestamp %q: valid=%v, ParseTimestamp: %v, JSON: %v", s, valid, err, jerr)
			return
		}
		if !valid {
			r.Event("rejected")
			return
		}
		r.Event("timestamp")
		want := ref.StampTime(s)
		if !ts.Equal(want) || !j.Equal(want) {
			r.Failf("timestamp-value", "timestamp %q denotes %v, parsed %v, decoded %v", s, want, ts.Time, j.Time)
		}
		if !want.IsZero() && ts.String() != want.Format("2006-01-02T15:04:05.000Z") {
			r.Failf("timestamp-string", "timestamp %q printed as %q", s, ts.String())
		}
		return
	}
	lo, hi := time.Date(1, 1, 2, 0, 0, 0, 0, time.UTC).Unix(), time.Date(9999, 12, 31, 0, 0, 0, 0, time.UTC).Unix()
	t := time.Unix(lo+int64(g.U64()%uint64(hi-lo)), int64(g.Intn(1000000000))).UTC()
	if g.P(60) {
		t = time.Unix(1500000000+int64(g.Intn(200000000)), int64(g.Intn(1000))*1000000).UTC()
	}
	if g.P(40) {
		t = t.In(time.FixedZone("x", g.Range(-12*60, 14*60)*60))
	}
	r.Note("timestamp " + t.String())
	ts := sadl.Timestamp{Time: t}
	want := t.UTC().Truncate(0).Format("2006-01-02T15:04:05.000Z")
	ms := t.UTC().Add(-time.Duration(t.Nanosecond() % 1000000))
	r.Observe("t "+want, true)
	r.Event("timestamp")
	if ts.String() != want {
		r.Failf("timestamp-string", "instant %v printed as %q, want %q", t, ts.String(), want)
	}
	p, err := sadl.ParseTimestamp(ts.String())
	if err != nil || !p.Equal(ms) {
		r.Failf("timestamp-roundtrip", "instant %v text %q parsed as %v (%v)", t, ts.String(), p.Time, err)
	}
	type bx struct {
		A sadl.Timestamp
		B *sadl.Timestamp
	}
	b, err := json.Marshal(bx{ts, &ts})
	var x bx
	if g.Bool() { // into variables that have values
		old, _ := sadl.ParseTimestamp("2020-02-03T04:05:06.789Z")
		x = bx{old, &old}
	}
	if err == nil {
		err = json.Unmarshal(b, &x)
	}
	if err != nil || !x.A.Equal(ms) || x.B == nil || !x.B.Equal(ms) {
		r.Failf("timestamp-json", "instant %v json %s decoded as %v (%v)", t, b, x, err)
	}
	r.Sample(map[string]string{"instant": t.String(), "json": string(b)})
}

func uuid(r *mon.Run, g *mon.Rand) {
	hex := "0123456789abcdefABCDEF"
	var b strings.Builder
	for i := 0; i < 36; i++ {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			b.WriteByte('-')
		} else {
			b.WriteByte(hex[g.Intn(len(hex))])
		}
	}
	s := b.String()
	if g.P(50) {
		i := g.Intn(36)
		switch g.Intn(5) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + g.Pick("g", "-", " ", "Z", "é", "0", "/", ":", "@", "G", "`") + s[i+1:]
		case 2:
			s = s[:i] + g.Pick("0", "-", "a") + s[i:]
		case 3:
			s = g.Pick("", "{"+s+"}", "urn:uuid:"+s, strings.ReplaceAll(s, "-", "_"))
		case 4:
			p := []int{8, 13, 18, 23}[g.Intn(4)]
			s = s[:p] + g.Pick("0", "_", "f") + s[p+1:]
		}
	}
	r.Note("uuid " + s)
	valid := ref.IsUUID(s)
	r.Observe("u "+s, true)
	r.Event("uuid")
	u := sadl.ParseUUID(s)
	q, _ := json.Marshal(s)
	var j sadl.UUID
	if g.Bool() {
		j = "1ce437b0-1dd2-11b2-bc26-003ee1be85f9"
	}
	err := json.Unmarshal(q, &j)
	if !valid {
		r.Event("rejected")
		if u != "" || err == nil {
			r.Failf("uuid-accept", "malformed UUID %q: ParseUUID=%q, json error=%v", s, u, err)
		}
		return
	}
	if string(u) != s || err != nil || string(j) != s {
		r.Failf("uuid-value", "UUID %q: ParseUUID=%q, json=%q %v", s, u, j, err)
		return
	}
	b2, err := json.Marshal(u)
	if err != nil || string(b2) != string(q) {
		r.Failf("uuid-marshal", "UUID %q marshalled as %s (%v)", s, b2, err)
	}
	for _, bad := range []string{"12", "true", "{}", "[]", "null"} {
		var z sadl.UUID
		e := z.UnmarshalJSON([]byte(bad))
		if e == nil && bad != "null" {
			r.Failf("uuid-json-accept", "JSON %s decoded as UUID %q", bad, z)
		}
	}
}

func unitvalue(r *mon.Run, g *mon.Rand) {
	num := decText(g)
	if strings.HasSuffix(num, ".") {
		num += "0"
	}
	unit := g.Pick("USD", "kg", "m/s", "µm", "say \"hi\"", "a b c", "back\\slash", "<x>&y", "tab\there", "日本", "%", "'", "u\u2028x", "line\nbreak", " lead", "1")
	want, _ := new(big.Rat).SetString(num)
	repr := num + " " + unit
	r.Note("unitvalue " + repr)
	r.Observe("uv "+repr, true)
	r.Event("unitvalue")
	q, err := sadl.ParseUnitValue(repr)
	if err != nil {
		r.Failf("unitvalue-reject", "ParseUnitValue(%q): %v", repr, err)
		return
	}
	same := func(what string, q *sadl.UnitValue) {
		if q == nil || q.Value == nil {
			r.Failf("unitvalue-loss", "%s of %q lost the value", what, repr)
			return
		}
		got, ok := new(big.Rat).SetString(q.Value.String())
		if !ok || got.Cmp(want) != 0 || q.Unit != unit {
			r.Failf("unitvalue-loss", "%s of %q became %q %q", what, repr, q.Value, q.Unit)
		}
	}
	same("parse", q)
	q2, err := sadl.ParseUnitValue(q.String())
	if err != nil {
		r.Failf("unitvalue-roundtrip", "String of %q = %q does not parse: %v", repr, q.String(), err)
		return
	}
	same("text round trip", q2)
	b, err := json.Marshal(q)
	if err != nil {
		r.Failf("unitvalue-marshal", "json.Marshal of %q: %v", repr, err)
		return
	}
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		r.Failf("unitvalue-marshal", "json of %q is not a string: %s", repr, b)
		return
	}
	var q3 sadl.UnitValue
	if err := json.Unmarshal(b, &q3); err != nil {
		r.Failf("unitvalue-json", "json round trip of %q (%s): %v", repr, b, err)
		return
	}
	same("json round trip", &q3)
	f := float64(g.Range(-100000, 100000)) / 8
	if g.P(10) {
		f = 0
	}
	nu := sadl.NewUnitValue(f, unit)
	b, _ = json.Marshal(nu)
	var q4 sadl.UnitValue
	if g.Bool() { // into a variable that has a value
		q4 = *q
	}
	if err := json.Unmarshal(b, &q4); err != nil || q4.Value.AsFloat64() != f || q4.Unit != unit {
		r.Failf("unitvalue-new", "NewUnitValue(%v,%q) round trip: %s %v", f, unit, b, err)
	}
	for _, bad := range []string{num, num + " ", " " + unit, unit + "x 5", "", num + "kg", "x" + num + " kg"} {
		if _, e := sadl.ParseUnitValue(bad); e == nil {
			r.Failf("unitvalue-accept", "ParseUnitValue accepted %q", bad)
		}
		j, _ := json.Marshal(bad)
		var z sadl.UnitValue
		if json.Unmarshal(j, &z) == nil {
			r.Failf("unitvalue-accept", "json decoded %s as UnitValue", j)
		}
		r.Event("rejected")
	}
	var z sadl.UnitValue
	if json.Unmarshal([]byte("100"), &z) == nil || json.Unmarshal([]byte("{}"), &z) == nil {
		r.Failf("unitvalue-accept", "a non-string JSON value decoded as UnitValue")
	}
	r.Sample(map[string]string{"unitvalue": repr, "json": string(b)})
}
