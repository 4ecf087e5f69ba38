package oas

import (
	"fmt"
	"sort"
	"strings"

	"github.com/boynton/sadl"

	"verif/mon"
)

// DocGen generates OpenAPI 3 (or Swagger 2) documents together with the SADL schema they stand for.
type DocGen struct {
	*mon.Rand
	V2       bool
	steady   bool
	structs  map[string]bool
	Plain    bool // properties have names that are identifiers, alternatives differ
	names    []string
	exam     []*sadl.ExampleDef
	Features map[string]int
	shared   map[string]M    // what is defined once for the document, by section
	other    map[string]bool // document-level media types of that key leave application/json out
}

func (d *DocGen) feat(f string) { d.Features[f]++ }

func (d *DocGen) comment(pct int) string {
	if d.P(pct) {
		return d.Pick("the value", "one: two", "it's 100% \"quoted\"", "x # y", "a\nb", "ünï")
	}
	return ""
}

func (d *DocGen) Ref(n string) M {
	if d.V2 {
		return M{"$ref": "#/definitions/" + n}
	}
	return ref(n)
}

func i64(n int) *int64 { v := int64(n); return &v }

func (d *DocGen) sizes(m M, ts *sadl.TypeSpec, lo, hi string) {
	if d.P(35) {
		n := d.Range(0, 3)
		m[lo] = n
		if n > 0 {
			ts.MinSize = i64(n)
		}
	}
	if d.P(35) {
		n := d.Range(3, 40)
		m[hi] = n
		ts.MaxSize = i64(n)
	}
}

func dec(s string) *sadl.Decimal {
	x, err := sadl.ParseDecimal(s)
	if err != nil {
		mon.Bug("decimal: %v", err)
	}
	return x
}

func (d *DocGen) limits(m M, ts *sadl.TypeSpec, vals [][2]string) {
	set := func(k string, p **sadl.Decimal, i int) {
		v := vals[d.Intn(len(vals))][i]
		if i == 1 && d.P(15) && (ts.Min == nil || ts.Min.Sign() <= 0) {
			v = "0"
			if ts.Min != nil && d.P(30) { // one value allowed
				v = ts.Min.String()
			}
		}
		*p = dec(v)
		m[k] = num(*p)
	}
	if d.P(40) {
		set("minimum", &ts.Min, 0)
	}
	if d.P(40) {
		set("maximum", &ts.Max, 1)
	}
}

// Scalar makes a non-composite schema; enumAsValues: symbols stay string values.
func (d *DocGen) Scalar(enumAsValues, noFormatInt32 bool) (M, sadl.TypeSpec) {
	m := M{}
	var ts sadl.TypeSpec
	switch d.Intn(9) {
	case 0:
		m["type"] = "boolean"
		ts.Type = "Bool"
	case 1, 2:
		m["type"] = "string"
		ts.Type = "String"
		if d.P(30) {
			m["pattern"] = "^[a-z]+$"
			ts.Pattern = "^[a-z]+$"
		}
		d.sizes(m, &ts, "minLength", "maxLength")
		if d.P(10) {
			m["format"] = d.Pick("byte", "password", "date")
			d.feat("other format")
		}
	case 3:
		m["type"], m["format"] = "string", "uuid"
		ts.Type = "UUID"
	case 4:
		m["type"], m["format"] = "string", "date-time"
		ts.Type = "Timestamp"
	case 5:
		m["type"] = "string"
		if d.Bool() {
			v := []string{"RED", "GREEN", "blue", "x_1"}[:d.Range(1, 4)]
			for i, n := 0, d.Up(0, 0, 30); i < n; i++ {
				v = append(v, fmt.Sprintf("S%d", i))
			}
			m["enum"] = strs(v)
			if enumAsValues {
				ts.Type = "String"
				ts.Values = v
			} else {
				ts.Type = "Enum"
				for _, s := range v {
					ts.Elements = append(ts.Elements, &sadl.EnumElementDef{Symbol: s})
				}
			}
			d.feat("symbol enum")
		} else {
			v := []string{"a b", "x", "c-d", "1st"}[:d.Range(1, 4)]
			for i, n := 0, d.Up(0, 0, 30); i < n; i++ {
				v = append(v, fmt.Sprintf("v %d", i))
			}
			m["enum"] = strs(v)
			ts.Type = "String"
			ts.Values = v
			d.sizes(m, &ts, "minLength", "maxLength")
			d.feat("value enum")
		}
	case 6:
		m["type"] = "number"
		ts.Type = "Decimal"
		switch d.Intn(3) {
		case 0:
			m["format"] = "float"
			ts.Type = "Float32"
		case 1:
			m["format"] = "double"
			ts.Type = "Float64"
		}
		d.limits(m, &ts, [][2]string{{"0", "10"}, {"-1.5", "2.25"}, {"-1000000", "1000000.5"}, {"0.125", "99"}, {"0.1", "99.9"}, {"-2.2", "7.3"}})
	default:
		m["type"] = "integer"
		ts.Type = "Int64"
		if noFormatInt32 {
			ts.Type = "Int32"
		}
		switch d.Intn(5) {
		case 0:
			m["format"] = "int32"
			ts.Type = "Int32"
		case 1:
			m["format"] = "int64"
			ts.Type = "Int64"
		case 2:
			m["format"] = "int8"
			ts.Type = "Int8"
		case 3:
			m["format"] = "int16"
			ts.Type = "Int16"
		}
		d.limits(m, &ts, [][2]string{{"0", "100"}, {"-5", "7"}, {"1", "126"}})
	}
	return m, ts
}

func (d *DocGen) item() (M, string) {
	if len(d.names) > 0 && d.P(50) {
		n := d.PickS(d.names)
		return d.Ref(n), n
	}
	if d.P(6) { // symbols and variants of items have no place in a model
		if d.Bool() && !d.V2 {
			of := []interface{}{M{"type": "string"}, M{"type": "boolean"}}
			if len(d.names) > 0 {
				of = []interface{}{d.Ref(d.PickS(d.names)), M{"type": "string"}}
			}
			d.feat("union item")
			return M{"oneOf": of}, "Any"
		}
		d.feat("enum item")
		return M{"type": "string", "enum": strs([]string{"ON", "off_1", "Auto"}[:d.Range(1, 3)])}, "String"
	}
	m, ts := d.Scalar(true, false)
	return m, ts.Type
}

// Schema makes a schema for context ctx (the example target, or "" where examples have none).
func (d *DocGen) Schema(ctx string, depth int) (M, sadl.TypeSpec) {
	var m M
	var ts sadl.TypeSpec
	k := d.Intn(10)
	if depth > 2 {
		k = 0
	}
	switch k {
	case 0, 1, 2:
		m, ts = d.Scalar(false, false)
	case 3, 4:
		m = M{"type": "array"}
		ts.Type = "Array"
		if d.P(90) || d.V2 {
			m["items"], ts.Items = d.item()
		} else {
			ts.Items = "Any"
			d.feat("array without items")
		}
		d.sizes(m, &ts, "minItems", "maxItems")
	case 5:
		m = M{"type": "object"}
		ts.Type, ts.Keys = "Map", "String"
		m["additionalProperties"], ts.Items = d.item()
		d.sizes(m, &ts, "minProperties", "maxProperties")
		d.feat("map")
	case 6:
		if d.V2 || len(d.names) == 0 {
			m, ts = d.Scalar(false, false)
			break
		}
		ts.Type = "Union"
		var of []interface{}
		for i, n := 0, d.Up(1, 3, 9); i < n; i++ {
			v, t := d.item()
			if d.Plain && of != nil && hasVariant(ts.Variants, t) {
				continue
			}
			of = append(of, v)
			vd := &sadl.UnionVariantDef{Name: t}
			vd.Type = t
			ts.Variants = append(ts.Variants, vd)
		}
		m = M{"oneOf": of}
		d.feat("union")
	case 7:
		m = M{}
		ts.Type = "Any"
		if d.P(70) {
			m = M{"type": "object"}
			ts.Type = "Struct"
		}
		d.feat("untyped")
	default:
		m = M{"type": "object"}
		if d.P(15) {
			delete(m, "type")
			d.feat("object without type")
		}
		ts.Type = "Struct"
		props := M{}
		var req []interface{}
		for i, n := 0, d.Up(1, 6, 30); i < n; i++ {
			name := d.Pick("id", "name", "first-name", "count2", "Items", "x", "y", "z", "status", "tags") + d.Pick("", "", "1", "B")
			if d.Plain {
				name = strings.ReplaceAll(name, "-", "")
			}
			if _, dup := props[name]; dup {
				continue
			}
			f := &sadl.StructFieldDef{Name: name}
			var fm M
			if len(d.names) > 0 && d.P(35) {
				f.Type = d.PickS(d.names)
				fm = d.Ref(f.Type)
				if d.P(20) {
					fm["description"] = "sibling of a ref"
					f.Comment = "sibling of a ref"
					if d.V2 {
						f.Comment = "sibling of a ref"
					}
				}
			} else {
				c := ""
				if ctx != "" {
					c = ctx + "." + name
				}
				fm, f.TypeSpec = d.Schema(c, depth+1)
				f.Comment = d.comment(30)
				put(fm, "description", f.Comment)
			}
			if d.P(40) {
				f.Required = true
				req = append(req, name)
			}
			props[name] = fm
			ts.Fields = append(ts.Fields, f)
		}
		m["properties"] = props
		put(m, "required", req)
		if d.P(12) { // properties make a structure, whatever else it may hold
			m["additionalProperties"] = d.PickS2(true, false, false, M{"type": "string"}, M{"type": "integer"})
			d.feat("open object")
		}
	}
	if d.P(12) {
		v := d.PickS2("an example", 12.5, true, M{"a": 1.0}, []interface{}{"x"})
		m["example"] = v
		if ctx != "" {
			d.exam = append(d.exam, &sadl.ExampleDef{Target: ctx, Example: v})
		}
		d.feat("example")
	}
	if d.P(6) {
		m["x-extension"] = M{"type": "string", "$ref": "nothing"}
		delete(m["x-extension"].(M), "$ref")
	}
	return m, ts
}

// Ident is the identifier made of a parameter or header name.
func Ident(s string) string {
	var b strings.Builder
	for _, c := range s {
		letter := c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if letter || b.Len() > 0 && c >= '0' && c <= '9' {
			b.WriteRune(c)
		}
	}
	return b.String()
}

// Types makes the component schemas.
func hasVariant(vs []*sadl.UnionVariantDef, name string) bool {
	for _, v := range vs {
		if v.Name == name {
			return true
		}
	}
	return false
}

func (d *DocGen) Types() (M, []*sadl.TypeDef) {
	n := d.Up(0, 7, 25)
	schemas := M{}
	var tds []*sadl.TypeDef
	words := []string{"Item", "Order", "user", "Price_2", "Widget", "Error", "Page", "Color", "Tag9"}
	for i := len(words); i < n; i++ {
		words = append(words, fmt.Sprintf("Kind%dX", i))
	}
	p := d.Perm(len(words))
	chain := false
	for i := 0; i < n; i++ {
		name := words[p[i]]
		td := &sadl.TypeDef{Name: name}
		if last := len(tds) - 1; last >= 0 && (d.P(8) || chain && d.P(60)) {
			to := tds[d.Intn(len(tds))]
			if chain {
				to = tds[last]
				d.feat("alias of an alias")
			}
			chain = true
			schemas[name] = d.Ref(to.Name)
			td.TypeSpec = to.TypeSpec
			for _, e := range d.exam {
				if e.Target == to.Name || strings.HasPrefix(e.Target, to.Name+".") {
					d.exam = append(d.exam, &sadl.ExampleDef{Target: name + strings.TrimPrefix(e.Target, to.Name), Example: e.Example})
				}
			}
			d.feat("alias")
		} else {
			var m M
			m, td.TypeSpec = d.Schema(name, 0)
			td.Comment = d.comment(40)
			put(m, "description", td.Comment)
			schemas[name] = m
			chain = false
		}
		tds = append(tds, td)
		d.names = append(d.names, name)
		if d.structs == nil {
			d.structs = map[string]bool{}
		}
		d.structs[name] = td.Type == "Struct"
	}
	if d.P(10) {
		schemas["Timestamp"] = M{"type": "string", "format": "date-time"}
		d.names = append(d.names, "Timestamp")
		d.feat("base type redefined")
	}
	if d.P(10) {
		schemas["Decimal"] = M{"type": "number"}
		d.names = append(d.names, "Decimal")
	}
	return schemas, tds
}

func (d *DocGen) param(where string, used map[string]bool) (M, *sadl.HttpParamSpec) {
	var name string
	for {
		name = d.Pick("id", "name", "per-page", "item-id", "q2", "X-Trace", "x_y", "sort.by", "9lives", "limit", "after") + d.Pick("", "", "3", "-z")
		if !used[Ident(name)] {
			used[Ident(name)] = true
			break
		}
	}
	m := M{"name": name, "in": where}
	p := &sadl.HttpParamSpec{}
	p.Name = Ident(name)
	p.Comment = d.comment(40)
	put(m, "description", p.Comment)
	switch where {
	case "path":
		p.Path = true
		p.Required = true
		m["required"] = true
	case "query":
		p.Query = name
	case "header":
		p.Header = name
	}
	if where != "path" && d.P(40) {
		p.Required = true
		m["required"] = true
	}
	var sm M
	switch {
	case len(d.names) > 0 && d.P(20) && !d.V2:
		p.Type = d.PickS(d.names)
		sm = d.Ref(p.Type)
	case d.P(20):
		sm = M{"type": "array"}
		p.Type = "Array"
		sm["items"], p.Items = d.item()
		d.sizes(sm, &p.TypeSpec, "minItems", "maxItems")
		d.feat("array param")
	default:
		sm, p.TypeSpec = d.Scalar(true, true)
	}
	if d.V2 {
		for k, v := range sm {
			m[k] = v
		}
	} else {
		m["schema"] = sm
	}
	return m, p
}

func (d *DocGen) payload(ctx string) (M, sadl.TypeSpec) {
	if len(d.names) > 0 && d.P(75) {
		n := d.PickS(d.names)
		return d.Ref(n), sadl.TypeSpec{Type: n}
	}
	return d.Schema(ctx, 1)
}

// share may define m once for the document and give a reference to it, or a reference to a reference.
func (d *DocGen) share(section string, m M) M {
	if !d.P(15) || d.V2 && section != "parameters" && section != "responses" {
		return m
	}
	if d.shared == nil {
		d.shared = map[string]M{}
	}
	if d.shared[section] == nil {
		d.shared[section] = M{}
	}
	prefix := "#/components/" + section + "/"
	if d.V2 {
		prefix = "#/" + section + "/"
	}
	for n := d.Pick0(1, 1, 1, 2, 4); n > 0; n-- {
		name := fmt.Sprintf("%s%d", d.Pick("my", "Item", "x.y", "a-b"), len(d.shared[section]))
		d.shared[section][name] = m
		m = M{"$ref": prefix + name}
	}
	d.feat("shared " + section)
	return m
}

func (d *DocGen) content(sc M) M {
	c := M{"application/json": M{"schema": sc}}
	if d.P(20) {
		c["text/plain"] = M{"schema": M{"type": "string"}}
		d.feat("other media type")
	}
	return c
}

// Paths makes the paths object.
func (d *DocGen) Paths() (M, []*sadl.HttpDef) {
	paths := M{}
	var hs []*sadl.HttpDef
	opn := 0
	for i, n := 0, d.Up(0, 4, 14); i < n; i++ {
		path := "/" + d.Pick("items", "orders", "users/all", "v1/things") + fmt.Sprint(i)
		sadlPath := path
		used := map[string]bool{"body": true}
		var shared []interface{}
		var sharedP []*sadl.HttpParamSpec
		for k, np := 0, d.Up(0, 2, 5); k < np; k++ {
			m, p := d.param("path", used)
			shared = append(shared, d.share("parameters", m))
			sharedP = append(sharedP, p)
			path += "/{" + m["name"].(string) + "}"
			sadlPath += "/{" + p.Name + "}"
			if d.P(30) {
				path += "/sub"
				sadlPath += "/sub"
			}
		}
		pi := M{}
		level := d.P(25) && len(shared) > 0
		var common []interface{}
		var commonM []M
		var commonP []*sadl.HttpParamSpec
		if level {
			common = append(common, shared...)
			d.feat("path level parameters")
		}
		if d.P(20) {
			for k, n := 0, d.Range(1, 3); k < n; k++ {
				m, p := d.param(d.Pick("query", "header"), used)
				common = append(common, d.share("parameters", m))
				commonM, commonP = append(commonM, m), append(commonP, p)
			}
			d.feat("path level query or header")
		}
		if len(common) > 0 {
			pi["parameters"] = common
		}
		if d.P(10) {
			pi["summary"] = "the path"
		}
		for _, method := range []string{"GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS"} {
			if !d.P(30) {
				continue
			}
			opn++
			h := &sadl.HttpDef{Name: fmt.Sprintf("op%s%d", d.Pick("Get", "x_", "List"), opn), Method: method, Path: sadlPath, Comment: d.comment(50)}
			op := M{"operationId": h.Name}
			put(op, "summary", h.Comment)
			if d.P(40) {
				tags := []string{"one", "two", "t-3", "t4", "t5", "t6"}[:d.Up(1, 3, 6)]
				op["tags"] = strs(tags)
				h.Resource = tags[0]
				if len(tags) > 1 {
					h.Annotations = map[string]string{"x_tags": strings.Join(tags[1:], ",")}
				}
				d.feat("tags")
			}
			ou := map[string]bool{}
			for k := range used {
				ou[k] = true
			}
			var params []interface{}
			if !level {
				params = append(params, shared...)
			}
			h.Inputs = append(h.Inputs, sharedP...)
			var qs []string
			for k, nq := 0, d.Up(0, 3, 11); k < nq; k++ {
				w := d.Pick("query", "query", "header")
				m, p := d.param(w, ou)
				params = append(params, d.share("parameters", m))
				h.Inputs = append(h.Inputs, p)
				if w == "query" {
					qs = append(qs, p.Query+"={"+p.Name+"}")
				}
			}
			var rest []string
			for k, p := range commonP {
				if d.P(30) { // the operation has its own
					m, own := d.param(commonM[k]["in"].(string), map[string]bool{})
					m["name"] = commonM[k]["name"]
					own.Name, own.Query, own.Header = p.Name, p.Query, p.Header
					params = append(params, d.share("parameters", m))
					h.Inputs = append(h.Inputs, own)
					if own.Query != "" {
						qs = append(qs, own.Query+"={"+own.Name+"}")
					}
					d.feat("path level parameter replaced")
				} else {
					h.Inputs = append(h.Inputs, p)
					if p.Query != "" {
						rest = append(rest, p.Query+"={"+p.Name+"}")
					}
				}
			}
			qs = append(qs, rest...)
			if len(qs) > 0 {
				h.Path += "?" + strings.Join(qs, "&")
			}
			if method == "POST" || method == "PUT" || method == "PATCH" {
				if d.P(85) {
					b := &sadl.HttpParamSpec{}
					b.Name = "body"
					b.Comment = d.comment(40)
					b.Required = d.P(70)
					var sc M
					sc, b.TypeSpec = d.payload(sadl.Capitalize(h.Name) + "Request.body")
					if d.V2 {
						m := M{"in": "body", "name": "payload", "schema": sc, "required": b.Required}
						put(m, "description", b.Comment)
						params = append(params, d.share("parameters", m))
					} else {
						m := M{"content": d.content(sc), "required": b.Required}
						put(m, "description", b.Comment)
						op["requestBody"] = d.share("requestBodies", m)
					}
					h.Inputs = append(h.Inputs, b)
				}
			}
			put(op, "parameters", params)
			op["responses"] = d.responses(h)
			if d.V2 {
				d.media(op, h)
			}
			pi[strings.ToLower(method)] = op
			hs = append(hs, h)
		}
		paths[path] = pi
	}
	return paths, hs
}

// media declares media types. Whatever carries a schema can be application/json, from its own list or the document's.
func (d *DocGen) media(m M, h *sadl.HttpDef) {
	for _, k := range []string{"consumes", "produces"} {
		carries := false
		if h != nil {
			if k == "consumes" {
				for _, p := range h.Inputs {
					carries = carries || !p.Path && p.Query == "" && p.Header == ""
				}
			} else {
				for _, o := range h.Expected.Outputs {
					carries = carries || o.Header == ""
				}
				for _, x := range h.Exceptions {
					carries = carries || x.Type != ""
				}
			}
			if !carries && d.P(20) {
				m[k] = []interface{}{d.Pick("text/plain", "application/xml")}
				d.feat("unused media types")
				continue
			}
		} else if d.other[k] {
			m[k] = []interface{}{d.Pick("text/plain", "application/xml")}
			d.feat("overridden media types")
			continue
		}
		if d.P(30) || carries && d.other[k] {
			m[k] = []interface{}{"application/json"}
			if d.Bool() {
				m[k] = []interface{}{"text/plain", "application/json", "application/xml"}
			}
			d.feat("media types")
		}
	}
}

func (d *DocGen) responses(h *sadl.HttpDef) M {
	rs := M{}
	ex := &sadl.HttpExpectedSpec{Comment: d.Pick("OK", "all good", "x: y")}
	key := d.Pick("200", "200", "201", "202", "204", "304", "default", "2XX")
	ex.Status = map[string]int32{"200": 200, "201": 201, "202": 202, "204": 204, "304": 304, "default": 200, "2XX": 200}[key]
	r := M{"description": ex.Comment}
	if key != "204" && key != "304" && d.P(85) {
		o := &sadl.HttpParamSpec{}
		o.Name = "body"
		var sc M
		sc, o.TypeSpec = d.payload("")
		if d.V2 {
			r["schema"] = sc
		} else {
			r["content"] = d.content(sc)
		}
		ex.Outputs = append(ex.Outputs, o)
	}
	hdrs := M{}
	for _, n := range []string{"ETag", "X-Next-Page", "x-rate-limit2", "Last-Modified", "xray-id", "Xenon"} {
		if !d.P(12) {
			continue
		}
		o := &sadl.HttpParamSpec{Header: n}
		s := n
		if strings.HasPrefix(strings.ToLower(n), "x-") {
			s = n[2:]
		}
		o.Name = Ident(s)
		o.Comment = d.comment(50)
		var sc M
		sc, o.TypeSpec = d.Scalar(false, false)
		hd := M{}
		if d.V2 {
			for k, v := range sc {
				hd[k] = v
			}
		} else {
			hd["schema"] = sc
		}
		put(hd, "description", o.Comment)
		hdrs[n] = d.share("headers", hd)
		ex.Outputs = append(ex.Outputs, o)
		d.feat("response header")
	}
	put(r, "headers", hdrs)
	rs[key] = d.share("responses", r)
	h.Expected = ex
	sts := []string{"400", "404", "500", "default"}
	if !(d.Plain && d.steady) && d.P(10) {
		sts = []string{"400", "401", "403", "404", "409", "422", "429", "500", "503", "default"}
		if d.P(60) { // any
			sts = []string{"default"}
			for k, st := 0, d.Range(400, 420); k < 8 && st < 600; k, st = k+1, st+d.Range(1, 30) {
				sts = append(sts, fmt.Sprint(st))
			}
			sort.Strings(sts)
		}
	}
	for _, st := range sts {
		if !d.P(25) && !(len(sts) > 4 && d.P(50)) || st == key || len(d.names) == 0 {
			continue
		}
		x := &sadl.HttpExceptionSpec{Comment: d.Pick("bad", "not there")}
		fmt.Sscan(strings.Replace(st, "default", "0", 1), &x.Status)
		xr := M{"description": x.Comment}
		if d.Plain && d.steady {
			// every exception is a struct and has one status
			k := d.Intn(len(d.names))
			if st != []string{"400", "404", "500", "default"}[k%4] || !d.structs[d.names[k]] {
				continue
			}
			x.Type = d.names[k]
		} else if d.P(90) {
			x.Type = d.PickS(d.names)
		}
		if x.Type != "" {
			if d.V2 {
				xr["schema"] = d.Ref(x.Type)
			} else {
				xr["content"] = d.content(d.Ref(x.Type))
			}
		}
		rs[st] = d.share("responses", xr)
		h.Exceptions = append(h.Exceptions, x)
		d.feat("exception")
	}
	return rs
}

// Doc makes a whole document and the schema it stands for (for a file called name).
func (d *DocGen) Doc(name string) (M, *sadl.Schema) {
	d.Features = map[string]int{}
	d.steady = d.P(60)
	s := &sadl.Schema{Name: name, Annotations: map[string]string{"x_openapi_version": "3.0.0"}}
	info := M{"title": name, "version": d.Pick("1", "1.2.3", "v2")}
	s.Version = info["version"].(string)
	desc := d.comment(50)
	put(info, "description", desc)
	s.Comment = desc
	switch d.Intn(3) {
	case 0:
		info["title"] = "myTitle"
		s.Name = "myTitle"
	case 1:
		info["title"] = "A Long Title"
		s.Comment = "A Long Title - " + desc
	}
	if d.P(40) {
		info["license"] = M{"name": "MIT", "url": "https://mit"}
		s.Annotations["x_license_name"] = "MIT"
		s.Annotations["x_license_url"] = "https://mit"
	}
	d.other = map[string]bool{"consumes": d.V2 && d.P(20), "produces": d.V2 && d.P(20)}
	schemas, tds := d.Types()
	s.Types = tds
	paths, hs := d.Paths()
	s.Http = hs
	s.Examples = d.exam
	doc := M{"info": info, "paths": paths}
	if d.V2 {
		doc["swagger"] = "2.0"
		put(doc, "definitions", schemas)
		if d.P(50) {
			doc["host"] = "api.example.com"
			url := "https://api.example.com"
			if d.Bool() {
				doc["basePath"] = "/v9"
				url += "/v9"
			}
			s.Annotations["x_server"] = url
		}
		d.media(doc, nil)
		for k, m := range d.shared {
			doc[k] = m
		}
		return doc, s
	}
	doc["openapi"] = d.Pick("3.0.0", "3.0.1")
	s.Annotations["x_openapi_version"] = doc["openapi"].(string)
	if len(schemas) > 0 || d.Bool() {
		doc["components"] = M{}
		put(doc["components"].(M), "schemas", schemas)
	}
	for k, m := range d.shared {
		if doc["components"] == nil {
			doc["components"] = M{}
		}
		doc["components"].(M)[k] = m
	}
	if d.P(50) {
		doc["servers"] = []interface{}{M{"url": "https://one"}}
		s.Annotations["x_server"] = "https://one"
		if d.Bool() {
			doc["servers"] = []interface{}{M{"url": "https://one"}, M{"url": "https://two"}}
			s.Annotations["x_server"] = "https://two"
		}
	}
	return doc, s
}
