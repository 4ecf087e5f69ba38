// C04: configuration data: lookups, typed accessors, defaults and files.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/boynton/sadl"

	"verif/mon"
)

func main() {
	mon.Main(mon.Spec{Prop: "C04",
		Rule:        "random nested documents; every path of the document, every prefix, and perturbed paths looked up through Get/Has/Get<Type> and compared with a reference walk; the same document loaded from JSON text, a JSON file, a YAML file in JSON flow style and a YAML file in block style; generator options compared with defaulting rules; non-trivial = distinct (document, path)",
		Assumptions: []string{"numbers are integers below 2^53 or short decimal fractions; yaml text is emitted by the harness with every string quoted"},
		MinEvents:   map[string]int{"lookup hit": 1000, "lookup miss": 1000, "file loaded": 200, "option": 1000, "typed value": 2000}},
		func(r *mon.Run) {
			r.Cases("doc", r.Scale(3000, 40000), func(i int, g *mon.Rand) { one(r, g, i) })
			r.Cases("typed", r.Scale(2000, 30000), func(i int, g *mon.Rand) { typed(r, g) })
			r.Cases("write-fault", 16, func(i int, g *mon.Rand) { faults(r, g, i) })
		})
}

var keys = []string{"a", "b", "c", "name", "force-overwrite", "service exception", "x.y", "", "ünï", "true", "1", "deep", "A"}
var strs = []string{"", "true", "false", "False", "no", "0", "hello", "a b", "1.5", "ü\"\\", "null", "x: y", "- z", "#c", "\t", "line1\nline2"}

func value(g *mon.Rand, depth int) interface{} {
	k := g.Intn(8)
	if depth > 3 {
		k = g.Intn(5)
	}
	switch k {
	case 0:
		return g.Bool()
	case 1, 2:
		return g.PickS(strs)
	case 3:
		switch g.Intn(5) {
		case 0:
			return float64(g.Range(-3, 3))
		case 1:
			return float64(int64(g.U64()>>12)) * float64(1-2*g.Intn(2))
		case 2:
			return float64(g.Range(-99999, 99999)) / 64
		}
		return float64(g.Range(-70000, 70000))
	case 4:
		return nil
	case 5:
		n := g.Intn(4)
		a := make([]interface{}, n)
		for i := range a {
			a[i] = value(g, depth+1)
			if g.P(50) {
				a[i] = g.PickS(strs)
			}
		}
		return a
	}
	return doc(g, depth+1)
}

func doc(g *mon.Rand, depth int) map[string]interface{} {
	m := map[string]interface{}{}
	for i, n := 0, g.Intn(5); i < n; i++ {
		m[g.PickS(keys)] = value(g, depth)
	}
	return m
}

// walk is the specification of a lookup.
func walk(m map[string]interface{}, path []string) interface{} {
	var cur interface{} = m
	for _, k := range path {
		mm, ok := cur.(map[string]interface{})
		if !ok {
			return nil
		}
		v, ok := mm[k]
		if !ok {
			return nil
		}
		cur = v
	}
	return cur
}

func paths(m map[string]interface{}, prefix []string, out *[][]string) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		p := append(append([]string{}, prefix...), k)
		*out = append(*out, p)
		if mm, ok := m[k].(map[string]interface{}); ok {
			paths(mm, p, out)
		}
	}
}

func boolOf(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return false
	case bool:
		return x
	case string:
		return x != "false"
	}
	return true
}
func strOf(v interface{}) string  { s, _ := v.(string); return s }
func numOf(v interface{}) float64 { f, _ := v.(float64); return f }

func one(r *mon.Run, g *mon.Rand, i int) {
	m := doc(g, 0)
	text := mon.JSON(m)
	r.Note(text)
	d := sadl.AsData(m)
	check := func(d *sadl.Data, how string) {
		var ps [][]string
		paths(m, nil, &ps)
		n := len(ps)
		for k := 0; k < 6; k++ { // perturbed paths
			p := []string{g.PickS(keys)}
			if n > 0 {
				p = append([]string{}, ps[g.Intn(n)]...)
			}
			switch g.Intn(5) {
			case 0:
				p = append(p, g.PickS(keys))
			case 1:
				p[g.Intn(len(p))] = "missing"
			case 2:
				p = append([]string{g.PickS(keys)}, p...)
			case 3:
				p[len(p)-1] = strings.ToUpper(p[len(p)-1]) + "x"
			case 4:
				p = append(p, "missing", g.PickS(keys))
			}
			ps = append(ps, p)
		}
		for _, p := range ps {
			want := walk(m, p)
			r.Observe(text+strings.Join(p, "/"), true)
			if want == nil {
				r.Event("lookup miss")
			} else {
				r.Event("lookup hit")
			}
			bad := func(what string, got interface{}) {
				r.Failf("lookup-"+what, "%s: %s(%q) = %#v, the value there is %#v\n%s", how, what, p, got, want, text)
			}
			if got := d.Get(p...); !reflect.DeepEqual(got, want) {
				bad("Get", got)
			}
			if got := d.Has(p...); got != (want != nil) {
				bad("Has", got)
			}
			if got := d.GetString(p...); got != strOf(want) {
				bad("GetString", got)
			}
			if got := d.GetBool(p...); got != boolOf(want) {
				bad("GetBool", got)
			}
			if got := d.GetInt(p...); got != int(numOf(want)) {
				bad("GetInt", got)
			}
			if got := d.GetInt64(p...); got != int64(numOf(want)) {
				bad("GetInt64", got)
			}
			if got := d.GetFloat64(p...); got != numOf(want) {
				bad("GetFloat64", got)
			}
			arr, isArr := want.([]interface{})
			if got := d.GetArray(p...); !reflect.DeepEqual(got, arr) && !(len(got) == 0 && len(arr) == 0) {
				bad("GetArray", got)
			}
			mp, _ := want.(map[string]interface{})
			if got := d.GetMap(p...); !reflect.DeepEqual(got, mp) {
				bad("GetMap", got)
			}
			if got := d.GetData(p...); got == nil || got.IsNil() != (want == nil) || !reflect.DeepEqual(got.AsMap(), mp) {
				bad("GetData", got)
			}
			sa := d.GetStringArray(p...)
			if isArr {
				ok := len(sa) == len(arr)
				for k := range arr {
					ok = ok && sa[k] == strOf(arr[k])
				}
				if !ok {
					bad("GetStringArray", sa)
				}
			} else if len(sa) != 0 {
				bad("GetStringArray", sa)
			}
			if d.GetDecimal(p...) != nil {
				bad("GetDecimal", d.GetDecimal(p...))
			}
			if len(p) == 1 {
				options(r, g, d, p[0], want)
			}
		}
	}
	check(d, "value")
	if got := mon.JSON(m); got != text {
		r.Failf("mutated", "reading changed the data\n%s\n%s", text, got)
	}
	// text and files
	jd, err := sadl.DataFromJsonString(text)
	if err != nil {
		r.Failf("json", "DataFromJsonString rejected %s: %v", text, err)
	} else {
		check(jd, "json string")
	}
	var u sadl.Data
	b, err := json.Marshal(d)
	if err == nil {
		err = json.Unmarshal(b, &u)
	}
	if err != nil || !reflect.DeepEqual(u.AsMap(), m) {
		r.Failf("json-roundtrip", "encoding and decoding gave %v (%v), want %s", u.String(), err, text)
	}
	dir := r.Scratch()
	defer os.RemoveAll(dir)
	jf := filepath.Join(dir, "c.json")
	if err := sadl.DataToFile(d, jf); err != nil {
		r.Failf("tofile", "DataToFile: %v", err)
	}
	files := map[string]string{"d.json": text, "flow.yaml": text, "block.yaml": yaml(m, ""), "noext": text}
	for f, t := range files {
		os.WriteFile(filepath.Join(dir, f), []byte(t), 0644)
	}
	for _, f := range []string{"c.json", "d.json", "flow.yaml", "block.yaml", "noext"} {
		ld, err := sadl.DataFromFile(filepath.Join(dir, f))
		r.Event("file loaded")
		if err != nil || ld == nil {
			r.Failf("file-"+f, "DataFromFile(%s): %v\n%s", f, err, files[f])
			continue
		}
		if len(m) == 0 && len(ld.AsMap()) == 0 {
			continue
		}
		if !reflect.DeepEqual(ld.AsMap(), m) {
			r.Failf("file-"+f, "DataFromFile(%s) gave %s\nwant %s\nfile text:\n%s", f, ld.String(), text, files[f])
		}
		if i%8 == 0 {
			check(ld, f)
		}
	}
	if _, err := sadl.DataFromFile(filepath.Join(dir, "nosuch.json")); err == nil {
		r.Fail("file-missing", "loading a file that does not exist succeeded")
	}
	for _, bad := range []string{"[1,2]", "{", "\"x\"", "{\"a\":}"} {
		os.WriteFile(filepath.Join(dir, "bad.json"), []byte(bad), 0644)
		if ld, err := sadl.DataFromFile(filepath.Join(dir, "bad.json")); err == nil {
			r.Failf("file-bad", "loading a malformed file %q succeeded: %v", bad, ld)
		} else if ld != nil {
			r.Failf("file-bad", "loading a malformed file %q gave both data and an error", bad)
		}
		if ld, err := sadl.DataFromJsonString(bad); err == nil {
			r.Failf("string-bad", "loading a malformed text %q succeeded: %v", bad, ld)
		} else if ld != nil {
			r.Failf("string-bad", "loading a malformed text %q gave both data and an error", bad)
		}
	}
	// updates
	nd := sadl.NewData()
	if !nd.IsNil() || nd.Has("a") || nd.AsMap() != nil {
		r.Fail("newdata", "a new Data is not empty")
	}
	shadow := map[string]interface{}{}
	for k, n := 0, g.Range(1, 8); k < n; k++ {
		key, v := g.PickS(keys), value(g, 2)
		nd.Put(key, v)
		shadow[key] = v
		if !reflect.DeepEqual(nd.AsMap(), shadow) || nd.IsNil() {
			r.Failf("put", "after Put(%q, %v): %s, want %s", key, v, nd.String(), mon.JSON(shadow))
		}
		for sk, sv := range shadow {
			if !reflect.DeepEqual(nd.Get(sk), sv) {
				r.Failf("put", "after Put, Get(%q) = %v, want %v", sk, nd.Get(sk), sv)
			}
		}
	}
	sc := sadl.AsData("scalar")
	sc.Put("k", 1)
	if sc.Has("k") || sc.AsMap() != nil {
		r.Fail("put-scalar", "a scalar became a map")
	}
}

func options(r *mon.Run, g *mon.Rand, d *sadl.Data, k string, want interface{}) {
	gen := &sadl.Generator{Config: d}
	ds, db, di := g.PickS(strs), g.Bool(), g.Range(-5, 5)
	ws, wb, wi := ds, db, di
	if want != nil {
		ws, wb, wi = strOf(want), boolOf(want), int(numOf(want))
	}
	r.Event("option")
	if got := gen.GetConfigString(k, ds); got != ws {
		r.Failf("option-string", "option %q=%#v default %q: got %q want %q", k, want, ds, got, ws)
	}
	if got := gen.GetConfigBool(k, db); got != wb {
		r.Failf("option-bool", "option %q=%#v default %v: got %v want %v", k, want, db, got, wb)
	}
	if got := gen.GetConfigInt(k, di); got != wi {
		r.Failf("option-int", "option %q=%#v default %v: got %v want %v", k, want, di, got, wi)
	}
}

// yaml emits a block style document with every string quoted.
func yaml(v interface{}, indent string) string {
	switch x := v.(type) {
	case map[string]interface{}:
		if len(x) == 0 {
			return "{}\n"
		}
		s := "\n"
		if indent == "" {
			s = ""
		}
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s += indent + quote(k) + ": " + yaml(x[k], indent+"  ")
		}
		return s
	case []interface{}:
		if len(x) == 0 {
			return "[]\n"
		}
		s := "\n"
		for _, e := range x {
			switch e.(type) {
			case map[string]interface{}, []interface{}:
				b, _ := json.Marshal(e)
				s += indent + "- " + string(b) + "\n"
			default:
				s += indent + "- " + yaml(e, indent+"  ")
			}
		}
		return s
	case string:
		return quote(x) + "\n"
	}
	b, _ := json.Marshal(v)
	return string(b) + "\n"
}

func quote(s string) string { b, _ := json.Marshal(s); return string(b) }

// faults: a save that cannot complete is reported.
func faults(r *mon.Run, g *mon.Rand, i int) {
	dir := r.Scratch()
	defer os.RemoveAll(dir)
	m := doc(g, 0)
	m["pad"] = strings.Repeat("x", g.Range(1, 100000))
	var path string
	switch i % 4 {
	case 0:
		path = filepath.Join(dir, "no", "such", "dir.json")
	case 1:
		path = dir
	case 2:
		path = "/dev/full"
	case 3:
		os.WriteFile(filepath.Join(dir, "f"), []byte("x"), 0644)
		path = filepath.Join(dir, "f", "g.json")
	}
	r.Observe(fmt.Sprint("fault", i, len(m)), true)
	r.Event("write fault injected")
	if err := sadl.DataToFile(sadl.AsData(m), path); err == nil {
		r.Failf("save-fault", "saving to %s reported success", path)
	}
}

// typed: values put in by code (not read from a file), through the accessors of Data, of plain maps and of single values.
func typed(r *mon.Run, g *mon.Rand) {
	text := g.PickS(strs)
	num := float64(g.Range(-1000, 1000))
	dec, _ := sadl.ParseDecimal(g.Pick("0", "1.25", "-7", "12345678901234567890.5"))
	a, b := g.PickS(strs), g.PickS(strs)
	type kind struct {
		v    interface{}
		s    string
		yes  bool
		n    int
		f    float64
		sa   []string
		arr  []interface{}
		m    map[string]interface{}
		d    *sadl.Decimal
		name string
	}
	mixed := []interface{}{a, g.PickS2(1.5, true, nil, []interface{}{"x"}, map[string]interface{}{})}
	obj := map[string]interface{}{a: b}
	kinds := []kind{
		{name: "nil"},
		{name: "string", v: text, s: text, yes: text != "false"},
		{name: "string pointer", v: &text, s: text, yes: true},
		{name: "bool", v: true, yes: true},
		{name: "bool", v: false},
		{name: "number", v: num, n: int(num), f: num, yes: true},
		{name: "fraction", v: num + 0.5, n: int(num + 0.5), f: num + 0.5, yes: true},
		{name: "decimal", v: dec, d: dec, yes: true},
		{name: "strings", v: []interface{}{a, b}, arr: []interface{}{a, b}, sa: []string{a, b}, yes: true},
		{name: "string pointers", v: []interface{}{&a, b}, arr: []interface{}{&a, b}, sa: []string{a, b}, yes: true},
		{name: "no strings", v: []interface{}{}, yes: true, arr: []interface{}{}},
		{name: "mixed", v: mixed, arr: mixed, yes: true},
		{name: "map", v: obj, m: obj, yes: true},
	}
	m := map[string]interface{}{"other": 1.0}
	d := sadl.NewData()
	d.Put("other", 1.0)
	k := kinds[g.Intn(len(kinds))]
	key := g.PickS(keys)
	m[key] = k.v
	d.Put(key, k.v)
	r.Event("typed value")
	r.Observe("t"+key+k.name+mon.JSON(k.v), true)
	bad := func(f string, got, want interface{}) {
		r.Failf("typed-"+f, "%s of a %s (%s) is %s, expected %s", f, k.name, mon.JSON(k.v), mon.JSON(got), mon.JSON(want))
	}
	same := func(f string, want interface{}, gots ...interface{}) {
		for _, got := range gots {
			if !reflect.DeepEqual(got, want) {
				bad(f, got, want)
			}
		}
	}
	same("Get", k.v, sadl.Get(m, key), d.Get(key))
	same("AsString", k.s, sadl.AsString(k.v), sadl.GetString(m, key), d.GetString(key))
	same("AsBool", k.yes, sadl.AsBool(k.v), sadl.GetBool(m, key), d.GetBool(key))
	same("AsInt", k.n, sadl.AsInt(k.v), sadl.GetInt(m, key), d.GetInt(key))
	same("AsInt64", int64(k.n), sadl.AsInt64(k.v), sadl.GetInt64(m, key), d.GetInt64(key))
	same("AsFloat64", k.f, sadl.AsFloat64(k.v), d.GetFloat64(key))
	same("AsArray", k.arr, sadl.AsArray(k.v), sadl.GetArray(m, key), d.GetArray(key))
	same("AsMap", k.m, sadl.AsMap(k.v), sadl.GetMap(m, key), d.GetMap(key), d.GetData(key).AsMap())
	same("AsStringArray", k.sa, sadl.AsStringArray(k.v), sadl.GetStringArray(m, key))
	same("AsDecimal", k.d, sadl.AsDecimal(k.v), sadl.GetDecimal(m, key), d.GetDecimal(key))
	if k.d != nil {
		if x := sadl.AsDecimal(*k.d); x == nil || x.Cmp(&k.d.Float) != 0 {
			bad("AsDecimal of a value", x, k.d)
		}
	}
	if n := g.Range(-9, 9); sadl.AsInt(n) != n || sadl.AsInt(int32(n)) != n {
		bad("AsInt of an int", sadl.AsInt(n), n)
	}
	// nothing there
	var none *sadl.Data
	if sadl.Get(nil, key) != nil || sadl.GetString(nil, key) != "" || sadl.GetMap(nil, key) != nil || sadl.Get(m, "nothing") != nil || none.AsMap() != nil {
		r.Fail("typed-nothing", "a lookup in nothing found something")
	}
}
