package smi

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/boynton/sadl"

	"verif/mon"
)

// O is a JSON object with its keys in order.
type KV struct {
	K string
	V interface{}
}
type O struct{ L []KV }

func (o *O) Put(k string, v interface{}) *O { o.L = append(o.L, KV{k, v}); return o }
func (o *O) MarshalJSON() ([]byte, error) {
	var b bytes.Buffer
	b.WriteString("{")
	for i, kv := range o.L {
		if i > 0 {
			b.WriteString(",")
		}
		k, _ := json.Marshal(kv.K)
		v, err := json.Marshal(kv.V)
		if err != nil {
			return nil, err
		}
		b.Write(k)
		b.WriteString(":")
		b.Write(v)
	}
	b.WriteString("}")
	return b.Bytes(), nil
}

// DocGen makes Smithy documents together with the models they stand for.
type DocGen struct {
	*mon.Rand
	Shapes   []KV
	Want     *sadl.Schema
	Features map[string]int
	Service  string // id
	Name     string // metadata
	Meta     *O
	names    map[string]bool
	types    []tdef
	errs     []tdef
	bodies   []tdef // structures usable as a whole input or output
	NS       string
}

type tdef struct{ id, name, kind string }

var words = []string{"Item", "Order", "User", "Price", "Widget", "Account", "Invoice", "Shape", "Color", "Address", "Profile", "Ticket", "Label", "Batch", "Token", "Region"}
var mwords = []string{"id", "name", "count", "total", "status", "owner", "created", "tags", "kind", "ratio", "first_name", "lastName", "note", "link", "x1", "maxValue"}

func (d *DocGen) feature(k string) {
	if d.Features == nil {
		d.Features = map[string]int{}
	}
	d.Features[k]++
}

func (d *DocGen) fresh(prefix, suffix string) string {
	for {
		n := prefix + d.PickS(words) + suffix
		if d.P(40) {
			n = prefix + d.PickS(words) + d.PickS(words) + suffix
		}
		if !d.names[strings.ToLower(n)] {
			d.names[strings.ToLower(n)] = true
			return n
		}
	}
}

func (d *DocGen) ids(n int) []string {
	p := d.Perm(len(mwords))
	var out []string
	for i := 0; i < n; i++ {
		w := mwords[p[i%len(p)]]
		if i >= len(p) {
			w += fmt.Sprint("_", i/len(p))
		}
		out = append(out, w)
	}
	return out
}

func (d *DocGen) doc(t *O, pct int) string {
	if !d.P(pct) {
		return ""
	}
	s := d.Pick("a word", "the value of an item", "with \"quotes\" and \\ and <b>", "été 100%", "one\ntwo", " one \n  two  \n three",
		"list:\n* one\n* two", "# Title\n\ntext", "- a\n  - b\n/ c", "*", "/path/x */ y /* z", "**bold**\n//no comment\n", "\ttab\n\tmore", "\n\nafter", "trailing *\n/ ")
	t.Put("smithy.api#documentation", s)
	if strings.Contains(s, "\n") {
		ls := strings.Split(s, "\n")
		for i := range ls {
			ls[i] = strings.Trim(ls[i], " ")
		}
		return strings.Join(ls, "\n")
	}
	return s
}

func (d *DocGen) flag() interface{} {
	if d.Bool() {
		return true
	}
	return M{}
}

// annos adds traits that become annotations
func (d *DocGen) annos(t *O, pct int) map[string]string {
	var a map[string]string
	add := func(k, v string) {
		if a == nil {
			a = map[string]string{}
		}
		a[k] = v
	}
	if d.P(pct) {
		d.feature("annotation")
		switch d.Intn(6) {
		case 0:
			t.Put("smithy.api#tags", L{"a", "b c"})
			add("x_tags", "a,b c")
		case 1:
			t.Put("smithy.api#deprecated", M{})
			add("x_deprecated", "true")
		case 2:
			t.Put("smithy.api#deprecated", M{"message": "use B", "since": "1.2"})
			add("x_deprecated", "true")
			add("x_deprecated_message", "use B")
			add("x_deprecated_since", "1.2")
		case 3:
			t.Put("smithy.api#sensitive", d.flag())
			add("x_sensitive", "true")
		case 4: // traits of the model itself are not kept
			t.Put("com.acme#custom", d.PickS2(true, "x", 12, M{"a": L{1}}, M{}))
		case 5:
			t.Put("smithy.api#internal", d.flag())
		}
	}
	return a
}

func dec(s string) *sadl.Decimal {
	x, err := sadl.ParseDecimal(s)
	if err != nil {
		mon.Bug("%v", err)
	}
	return x
}

func (d *DocGen) ranges(t *O, ts *sadl.TypeSpec, pct int) {
	if !d.P(pct) {
		return
	}
	m := M{}
	if d.P(70) {
		s := d.Pick("0", "-5", "1", "-100")
		if ts.Type == "Float32" || ts.Type == "Float64" || ts.Type == "Decimal" {
			s = d.Pick("0.1", "-2.2", "0", "0.5", "-1000000")
		}
		ts.Min = dec(s)
		m["min"] = json.Number(s)
	}
	if d.P(70) {
		s := d.Pick("100", "7", "20", "127")
		if ts.Type == "Int64" {
			s = d.Pick("9007199254740991", "100")
		} else if ts.Type == "Float32" || ts.Type == "Float64" || ts.Type == "Decimal" {
			s = d.Pick("99.9", "7.3", "100", "1000000.75")
		}
		if d.P(15) && (ts.Min == nil || ts.Min.Sign() <= 0) {
			s = "0"
		}
		ts.Max = dec(s)
		m["max"] = json.Number(s)
	}
	t.Put("smithy.api#range", m)
	d.feature("range")
}

func (d *DocGen) length(t *O, ts *sadl.TypeSpec, pct int) {
	if !d.P(pct) {
		return
	}
	m := M{}
	if d.P(70) {
		n := int64(d.Intn(4))
		ts.MinSize = &n
		m["min"] = n
	}
	if d.P(70) {
		n := int64(d.Range(0, 9))
		if ts.MinSize != nil && n < *ts.MinSize {
			n = *ts.MinSize
		}
		ts.MaxSize = &n
		m["max"] = n
	}
	t.Put("smithy.api#length", m)
	d.feature("length")
}

var preludeTypes = [][2]string{{"Blob", "Bytes"}, {"Boolean", "Bool"}, {"String", "String"}, {"String", "String"}, {"Byte", "Int8"}, {"Short", "Int16"}, {"Integer", "Int32"}, {"Long", "Int64"}, {"Float", "Float32"},
	{"Double", "Float64"}, {"BigInteger", "Decimal"}, {"BigDecimal", "Decimal"}, {"Timestamp", "Timestamp"}, {"Document", "Struct"}, {"PrimitiveBoolean", "Bool"}, {"PrimitiveByte", "Int8"},
	{"PrimitiveShort", "Int16"}, {"PrimitiveInteger", "Int32"}, {"PrimitiveLong", "Int64"}, {"PrimitiveFloat", "Float32"}, {"PrimitiveDouble", "Float64"}}

// target picks a shape and gives its type
func (d *DocGen) target(pct int) (string, string) {
	if len(d.types) > 0 && d.P(pct) {
		t := d.types[d.Intn(len(d.types))]
		return t.id, t.name
	}
	p := preludeTypes[d.Intn(len(preludeTypes))]
	return "smithy.api#" + p[0], p[1]
}

func member(target string, t *O) *O {
	m := (&O{}).Put("target", target)
	if len(t.L) > 0 {
		m.Put("traits", t)
	}
	return m
}

// typed makes a member with constraints
func (d *DocGen) typed(t *O, ts *sadl.TypeSpec, pct int) string {
	id, name := d.target(pct)
	ts.Type = name
	if strings.HasPrefix(id, "smithy.api#") {
		switch name {
		case "String":
			if d.P(20) {
				ts.Pattern = d.Pick("^[a-z]+$", "[0-9]+")
				t.Put("smithy.api#pattern", ts.Pattern)
			}
			d.length(t, ts, 20)
		case "Bytes":
			d.length(t, ts, 20)
		case "Bool", "Timestamp", "Struct":
		default:
			d.ranges(t, ts, 25)
		}
	}
	return id
}

func (d *DocGen) field(name string, pct int) (*O, sadl.StructFieldDef) {
	f := sadl.StructFieldDef{Name: name}
	t := &O{}
	if d.P(40) {
		t.Put("smithy.api#required", d.flag())
		f.Required = true
	}
	f.Comment = d.doc(t, 25)
	f.Annotations = d.annos(t, 12)
	if d.P(5) {
		t.Put("smithy.api#timestampFormat", "date-time")
		if f.Annotations == nil {
			f.Annotations = map[string]string{}
		}
		f.Annotations["x_timestampFormat"] = "date-time"
	}
	id := d.typed(t, &f.TypeSpec, pct)
	return member(id, t), f
}

var simpleKinds = map[string]string{"boolean": "Bool", "byte": "Int8", "short": "Int16", "integer": "Int32", "long": "Int64", "float": "Float32", "double": "Float64", "bigInteger": "Decimal", "bigDecimal": "Decimal",
	"string": "String", "timestamp": "Timestamp", "blob": "Bytes", "document": "Struct"}

var kindList = []string{"boolean", "byte", "short", "integer", "long", "float", "double", "bigInteger", "bigDecimal", "string", "string", "string", "timestamp", "blob", "document", "list", "list", "set", "map", "structure", "structure", "structure", "structure", "union", "enum"}

func (d *DocGen) put(id string, shape *O) { d.Shapes = append(d.Shapes, KV{id, shape}) }

func (d *DocGen) structure(name string, n int) (*O, *sadl.TypeDef) {
	td := &sadl.TypeDef{Name: name}
	td.Type = "Struct"
	ms := &O{}
	for _, k := range d.ids(n) {
		m, f := d.field(k, 50)
		ms.Put(k, m)
		fc := f
		td.Fields = append(td.Fields, &fc)
	}
	return ms, td
}

func (d *DocGen) define(t tdef) {
	tr := &O{}
	td := &sadl.TypeDef{Name: t.name}
	td.Comment = d.doc(tr, 35)
	td.Annotations = d.annos(tr, 20)
	anno := func(k, v string) {
		if td.Annotations == nil {
			td.Annotations = map[string]string{}
		}
		td.Annotations[k] = v
	}
	sh := (&O{}).Put("type", t.kind)
	td.Type = simpleKinds[t.kind]
	switch t.kind {
	case "byte", "short", "integer", "long", "float", "double", "bigDecimal", "bigInteger":
		d.ranges(tr, &td.TypeSpec, 60)
		if t.kind == "bigInteger" {
			anno("x_integer", "true")
		}
	case "string":
		switch d.Intn(5) {
		case 0:
			td.Pattern = d.Pick("^[a-z]+$", "^\"\\d+\"$", "a|b")
			tr.Put("smithy.api#pattern", td.Pattern)
		case 1:
			var l L
			for i, n := 0, d.Up(1, 4, 25); i < n; i++ {
				v := fmt.Sprint("v", i)
				if i < 4 {
					v = []string{"a", "b c", "x\"y", "Z"}[i]
				}
				td.Values = append(td.Values, v)
				e := M{"value": v}
				if d.P(20) {
					e["documentation"] = "doc"
				}
				l = append(l, e)
			}
			tr.Put("smithy.api#enum", l)
			d.feature("values")
		case 2:
			td.Type = "UUID"
			tr.Put("smithy.api#pattern", UUIDPattern)
			d.feature("UUID")
		}
		if td.Type == "String" {
			d.length(tr, &td.TypeSpec, 30)
		}
	case "blob":
		d.length(tr, &td.TypeSpec, 50)
	case "list", "set":
		id, n := d.target(60)
		sh.Put("member", member(id, &O{}))
		td.Type, td.Items = "Array", n
		d.length(tr, &td.TypeSpec, 40)
		if t.kind == "set" {
			anno("x_unique", "true")
		} else if d.P(30) {
			tr.Put("smithy.api#uniqueItems", d.flag())
			anno("x_unique", "true")
		}
		d.feature("list")
	case "map":
		kid, kn := "smithy.api#String", "String"
		for _, x := range d.types {
			if x.kind == "string" && d.P(30) {
				kid, kn = x.id, x.name
			}
		}
		id, n := d.target(60)
		sh.Put("key", member(kid, &O{}))
		sh.Put("value", member(id, &O{}))
		td.Type, td.Keys, td.Items = "Map", kn, n
		d.length(tr, &td.TypeSpec, 40)
		d.feature("map")
	case "structure":
		ms, x := d.structure(t.name, d.Up(0, 5, 25))
		td.Type, td.Fields = "Struct", x.Fields
		sh.Put("members", ms)
	case "union":
		td.Type = "Union"
		ms := &O{}
		for _, k := range d.ids(d.Up(1, 4, 14)) {
			v := &sadl.UnionVariantDef{Name: k}
			vt := &O{}
			v.Comment = d.doc(vt, 20)
			v.Annotations = d.annos(vt, 8)
			var id string
			if d.P(10) {
				id, v.Type = "smithy.api#Unit", "Struct"
			} else {
				id = d.typed(vt, &v.TypeSpec, 50)
			}
			ms.Put(k, member(id, vt))
			td.Variants = append(td.Variants, v)
		}
		sh.Put("members", ms)
		d.feature("union")
	case "enum":
		td.Type = "Enum"
		ms := &O{}
		for _, k := range d.ids(d.Up(1, 4, 30)) {
			k = strings.ToUpper(k)
			et := &O{}
			e := &sadl.EnumElementDef{Symbol: k}
			e.Comment = d.doc(et, 20)
			e.Annotations = d.annos(et, 8)
			if d.P(20) {
				et.Put("smithy.api#enumValue", "v "+k)
				if e.Annotations == nil {
					e.Annotations = map[string]string{}
				}
				e.Annotations["x_enumValue"] = "v " + k
			}
			ms.Put(k, member("smithy.api#Unit", et))
			td.Elements = append(td.Elements, e)
		}
		sh.Put("members", ms)
		d.feature("enum")
	}
	if len(tr.L) > 0 {
		sh.Put("traits", tr)
	}
	d.put(t.id, sh)
	d.Want.Types = append(d.Want.Types, td)
}

func lower(s string) string { return strings.ToLower(s[:1]) + s[1:] }

// Doc makes a document.
func (d *DocGen) Doc() {
	d.names = map[string]bool{}
	d.NS = d.Pick("com.acme", "test.ns", "example")
	d.Want = &sadl.Schema{Sadl: sadl.Version, Namespace: d.NS}
	for i, n := 0, d.Up(0, 8, 25); i < n; i++ {
		ns := d.NS
		name := d.fresh("", "")
		if i > 0 && d.P(8) {
			ns = "com.other"
			d.feature("other namespace")
		}
		if d.P(10) {
			name = lower(name)
		}
		d.types = append(d.types, tdef{ns + "#" + name, name, d.PickS(kindList)})
	}
	for i := range d.types {
		d.define(d.types[i])
	}
	d.errors()
	var ops L
	n := d.Up(0, 5, 12)
	for i := 0; i < n; i++ {
		ops = append(ops, M{"target": d.operation()})
	}
	if n > 0 || d.P(50) {
		name := d.fresh("", "Service")
		d.Service = d.NS + "#" + name
		d.Want.Name = name
		t := &O{}
		d.Want.Comment = d.doc(t, 40)
		sh := (&O{}).Put("type", "service").Put("version", "0.0")
		if d.P(80) {
			d.Want.Version = d.Pick("1", "2020-01-02")
			sh.L[1].V = d.Want.Version
		}
		if len(ops) > 0 {
			sh.Put("operations", ops)
		}
		d.annos(t, 10)
		if len(t.L) > 0 {
			sh.Put("traits", t)
		}
		d.put(d.Service, sh)
	}
	if d.P(60) { // any order of shapes
		p := d.Perm(len(d.Shapes))
		l := make([]KV, len(p))
		for i, j := range p {
			l[i] = d.Shapes[j]
		}
		d.Shapes = l
	}
	if d.Service == "" && len(d.Shapes) > 0 {
		id := d.Shapes[0].K
		d.Want.Namespace = id[:strings.Index(id, "#")]
	}
	if len(d.Shapes) == 0 {
		d.Want.Namespace = ""
	}
	if d.Want.Namespace == "example" {
		d.Want.Namespace = ""
	}
	d.Meta = &O{}
	if d.P(20) {
		d.Name = "metaName"
		d.Want.Name = d.Name
		d.Meta.Put("name", d.Name)
	}
	if d.P(20) {
		d.feature("metadata")
		d.Want.Annotations = map[string]string{}
		for _, k := range []string{"owner", "team"} {
			if d.P(60) {
				v := d.Pick("a b", "x", "ü")
				d.Meta.Put(k, v)
				d.Want.Annotations["x_"+k] = v
			}
		}
	}
}

func (d *DocGen) errors() {
	for i, n := 0, d.Up(0, 3, 8); i < n; i++ {
		name := d.fresh("", "Error")
		t := &O{}
		ms, td := d.structure(name, d.Range(1, 3))
		td.Comment = d.doc(t, 30)
		kind := d.Pick("client", "server")
		t.Put("smithy.api#error", kind)
		td.Annotations = map[string]string{"x_error": kind}
		status := "400"
		if kind == "server" {
			status = "500"
		}
		if d.P(70) {
			status = d.Pick("404", "409", "410")
			if kind == "server" {
				status = d.Pick("500", "503")
			}
			t.Put("smithy.api#httpError", json.Number(status))
			td.Annotations["x_httpError"] = status
		} else {
			d.feature("error without status")
		}
		id := d.NS + "#" + name
		d.put(id, (&O{}).Put("type", "structure").Put("members", ms).Put("traits", t))
		d.Want.Types = append(d.Want.Types, td)
		d.errs = append(d.errs, tdef{id, name, status})
	}
}

func (d *DocGen) value(t string) interface{} {
	switch t {
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		return json.Number(d.Pick("1", "2.5", "-3"))
	case "Bool":
		return true
	case "String":
		return d.Pick("text", "ü \"x\"")
	}
	return M{"a": L{json.Number("1"), "x", nil, M{"b": false}}}
}

// a structure used as a whole
func (d *DocGen) body() tdef {
	if len(d.bodies) > 0 && d.P(30) {
		d.feature("shared body")
		return d.bodies[d.Intn(len(d.bodies))]
	}
	if d.P(40) {
		for _, t := range d.types {
			if t.kind == "structure" {
				for _, td := range d.Want.Types {
					if td.Name == t.name && len(td.Fields) > 0 {
						return t
					}
				}
			}
		}
	}
	name := d.fresh("", "Content")
	t := &O{}
	ms, td := d.structure(name, d.Range(1, 4))
	td.Comment = d.doc(t, 30)
	if d.P(30) {
		t.Put("smithy.api#"+d.Pick("input", "output"), d.flag())
	}
	sh := (&O{}).Put("type", "structure").Put("members", ms)
	if len(t.L) > 0 {
		sh.Put("traits", t)
	}
	b := tdef{d.NS + "#" + name, name, "structure"}
	d.put(b.id, sh)
	d.Want.Types = append(d.Want.Types, td)
	d.bodies = append(d.bodies, b)
	d.feature("whole body")
	return b
}

func (d *DocGen) operation() string {
	name := d.fresh(d.Pick("Get", "Put", "Make", "Run"), "")
	id := d.NS + "#" + name
	t := &O{}
	sh := (&O{}).Put("type", "operation")
	comment := d.doc(t, 40)
	annos := d.annos(t, 15)
	var errs L
	var used []tdef
	for _, e := range d.errs {
		if d.P(40) {
			errs = append(errs, M{"target": e.id})
			used = append(used, e)
		}
	}
	if d.P(25) { // without http
		d.feature("operation")
		op := &sadl.OperationDef{Name: lower(name), Comment: comment, Annotations: annos}
		switch d.Intn(4) {
		case 0:
			sh.Put("input", M{"target": "smithy.api#Unit"})
		case 1, 2:
			in := name + "Input"
			ms, td := d.structure(in, d.Intn(4))
			for _, f := range td.Fields {
				op.Inputs = append(op.Inputs, &sadl.OperationInput{StructFieldDef: *f})
			}
			d.put(d.NS+"#"+in, (&O{}).Put("type", "structure").Put("members", ms))
			sh.Put("input", M{"target": d.NS + "#" + in})
			d.echo(in, d.NS+"#"+in, td)
		}
		switch d.Intn(4) {
		case 0:
			sh.Put("output", M{"target": "smithy.api#Unit"})
		case 1, 2:
			out := name + "Output"
			ms, td := d.structure(out, d.Intn(4))
			for _, f := range td.Fields {
				op.Outputs = append(op.Outputs, &sadl.OperationOutput{Name: f.Name, Comment: f.Comment, Annotations: f.Annotations, TypeSpec: f.TypeSpec})
			}
			d.put(d.NS+"#"+out, (&O{}).Put("type", "structure").Put("members", ms))
			sh.Put("output", M{"target": d.NS + "#" + out})
		}
		for _, e := range used {
			op.Exceptions = append(op.Exceptions, e.name)
		}
		if errs != nil {
			sh.Put("errors", errs)
		}
		if len(t.L) > 0 {
			sh.Put("traits", t)
		}
		d.put(id, sh)
		d.Want.Operations = append(d.Want.Operations, op)
		return id
	}
	d.feature("http")
	h := &sadl.HttpDef{Name: lower(name), Comment: comment, Annotations: annos, Method: d.Pick("GET", "PUT", "POST", "DELETE", "PATCH"), Expected: &sadl.HttpExpectedSpec{Status: 200}}
	uri := "/" + strings.ToLower(name)
	ht := M{"method": h.Method}
	if d.P(70) {
		st := d.Pick("200", "201", "204")
		ht["code"] = json.Number(st)
		fmt.Sscan(st, &h.Expected.Status)
	}
	wholeIn, wholeOut := false, false
	query := ""
	bound := func(in bool) (*O, []*sadl.HttpParamSpec) {
		ms := &O{}
		var ps []*sadl.HttpParamSpec
		payload := false
		for _, k := range d.ids(d.Range(1, 4)) {
			p := &sadl.HttpParamSpec{}
			m, f := d.field(k, 40)
			p.StructFieldDef = f
			var tr *O
			for _, kv := range m.L {
				if kv.K == "traits" {
					tr = kv.V.(*O)
				}
			}
			if tr == nil {
				tr = &O{}
				m.Put("traits", tr)
			}
			switch x := d.Intn(4); {
			case x == 0 && in:
				p.Path = true
				tr.Put("smithy.api#httpLabel", d.flag())
				uri += "/{" + k + "}"
			case x == 1 && in:
				p.Query = d.Pick("q-", "", "n") + k
				tr.Put("smithy.api#httpQuery", p.Query)
				if query == "" && !strings.Contains(uri, "?") {
					query = "?"
				} else {
					query += "&"
				}
				query += p.Query + "={" + k + "}"
				d.feature("query")
			case x == 2 && !payload:
				payload = true
				tr.Put("smithy.api#httpPayload", d.flag())
			default:
				p.Header = "X-" + k
				tr.Put("smithy.api#httpHeader", p.Header)
				d.feature("header")
			}
			ms.Put(k, m)
			ps = append(ps, p)
		}
		return ms, ps
	}
	switch d.Intn(6) {
	case 0:
		sh.Put("input", M{"target": "smithy.api#Unit"})
	case 1:
	case 2:
		b := d.body()
		sh.Put("input", M{"target": b.id})
		p := &sadl.HttpParamSpec{}
		p.Name, p.Type = "body", b.name
		h.Inputs = append(h.Inputs, p)
		wholeIn = true
	case 3:
		in := name + "Input"
		d.put(d.NS+"#"+in, (&O{}).Put("type", "structure").Put("members", &O{}))
		sh.Put("input", M{"target": d.NS + "#" + in})
	default:
		in := name + "Input"
		var ms *O
		ms, h.Inputs = bound(true)
		d.put(d.NS+"#"+in, (&O{}).Put("type", "structure").Put("members", ms).Put("traits", M{"smithy.api#input": M{}}))
		sh.Put("input", M{"target": d.NS + "#" + in})
	}
	switch d.Intn(6) {
	case 0:
		sh.Put("output", M{"target": "smithy.api#Unit"})
	case 1:
	case 2:
		b := d.body()
		sh.Put("output", M{"target": b.id})
		p := &sadl.HttpParamSpec{}
		p.Name, p.Type = "body", b.name
		h.Expected.Outputs = append(h.Expected.Outputs, p)
		wholeOut = true
	case 3:
		out := name + "Output"
		d.put(d.NS+"#"+out, (&O{}).Put("type", "structure"))
		sh.Put("output", M{"target": d.NS + "#" + out})
	default:
		out := name + "Output"
		var ms *O
		ms, h.Expected.Outputs = bound(false)
		d.put(d.NS+"#"+out, (&O{}).Put("type", "structure").Put("members", ms))
		sh.Put("output", M{"target": d.NS + "#" + out})
	}
	ht["uri"] = uri
	h.Path = uri + query
	for _, e := range used {
		x := &sadl.HttpExceptionSpec{Type: e.name}
		fmt.Sscan(e.kind, &x.Status)
		for _, td := range d.Want.Types {
			if td.Name == e.name {
				x.Comment = td.Comment
			}
		}
		h.Exceptions = append(h.Exceptions, x)
	}
	if errs != nil {
		sh.Put("errors", errs)
	}
	t.Put("smithy.api#http", ht)
	if d.P(20) {
		t.Put("smithy.api#paginated", M{"inputToken": "skip", "pageSize": "limit"})
		if h.Annotations == nil {
			h.Annotations = map[string]string{}
		}
		h.Annotations["x_paginated"] = "inputToken=skip,pageSize=limit"
	}
	if d.P(30) {
		t.Put("smithy.api#"+d.Pick("readonly", "idempotent"), d.flag())
	}
	if d.P(35) {
		var exs L
		for i, n := 0, d.Range(1, 2); i < n; i++ {
			e := M{"title": fmt.Sprintf("ex %d", i)}
			vals := func(ps []*sadl.HttpParamSpec, whole bool) (interface{}, interface{}) {
				v := M{}
				for _, p := range ps {
					v[p.Name] = d.value(p.Type)
				}
				if whole {
					return v["body"], v
				}
				return v, v
			}
			add := func(target, comment string, v interface{}) {
				d.Want.Examples = append(d.Want.Examples, &sadl.ExampleDef{Target: target, Name: e["title"].(string), Comment: comment, Example: v})
				d.feature("example")
			}
			if d.P(80) {
				c := ""
				if d.P(40) {
					c = "about the example"
					e["documentation"] = c
				}
				x, v := vals(h.Inputs, wholeIn)
				e["input"] = x
				add(name+"Request", c, v)
			}
			if len(used) > 0 && d.P(40) {
				u := used[d.Intn(len(used))]
				v := M{"m": d.value("Any")}
				e["error"] = M{"shapeId": u.id, "content": v}
				add(u.name, "", v)
			} else if d.P(70) {
				x, v := vals(h.Expected.Outputs, wholeOut)
				e["output"] = x
				add(name+"Response", "", v)
			}
			exs = append(exs, e)
		}
		t.Put("smithy.api#examples", exs)
	}
	sh.Put("traits", t)
	d.put(id, sh)
	d.Want.Http = append(d.Want.Http, h)
	return id
}

// echo sometimes uses the input of an operation as the type of a field, too: then it is a type
func (d *DocGen) echo(name, id string, td *sadl.TypeDef) {
	if !d.P(25) {
		return
	}
	n := d.fresh("", "Holder")
	h := &sadl.TypeDef{Name: n}
	h.Type = "Array"
	h.Items = name
	d.put(d.NS+"#"+n, (&O{}).Put("type", "list").Put("member", M{"target": id}))
	d.Want.Types = append(d.Want.Types, h, td)
	d.feature("input used as a type")
}

// Text gives a document with the given shapes.
func (d *DocGen) Text(shapes []KV, meta bool) string {
	doc := (&O{}).Put("smithy", d.Pick("2", "2.0"))
	if meta && d.Meta != nil && len(d.Meta.L) > 0 {
		doc.Put("metadata", d.Meta)
	}
	doc.Put("shapes", &O{shapes})
	b, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		mon.Bug("%v", err)
	}
	return string(b)
}
