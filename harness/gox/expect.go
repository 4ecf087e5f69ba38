package gox

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"github.com/boynton/sadl"
)

// GoAPI computes the Go declarations a model stands for.
type GoAPI struct {
	V       *Values
	Runtime bool
	Service string
}

func Cap(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

func (a *GoAPI) Type(t, keys, items string) string {
	rt := ""
	if a.Runtime {
		rt = "sadl."
	}
	switch t {
	case "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "String":
		return strings.ToLower(t)
	case "UUID":
		return "string"
	case "Bytes":
		return "[]byte"
	case "Any":
		return "interface{}"
	case "Decimal", "Timestamp", "UnitValue":
		return "*" + rt + t
	case "Array":
		return "[]" + a.Type(items, "", "")
	case "Map":
		return "map[" + a.Type(keys, "", "") + "]" + a.Type(items, "", "")
	}
	switch td := a.V.find(t); td.Type {
	case "Struct":
		return "*" + t
	case "Decimal", "Timestamp":
		return "*" + rt + td.Type
	}
	return t
}

func (a *GoAPI) fields(fs []*sadl.StructFieldDef) []string {
	var l []string
	for _, f := range fs {
		tag := f.Name
		if !f.Required {
			tag += ",omitempty"
		}
		l = append(l, Cap(f.Name)+" "+a.Type(f.Type, f.Keys, f.Items)+" "+tag)
	}
	return l
}

func show(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == "github.com/boynton/sadl" {
			return "sadl"
		}
		if strings.HasPrefix(p.Path(), "gen/") {
			return ""
		}
		return p.Name()
	})
}

func unalias(s string) string { return strings.ReplaceAll(s, "interface{}", "any") }

func structOf(p *types.Package, name string) ([]string, error) {
	o, ok := p.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil, fmt.Errorf("there is no type %s", name)
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("%s is not a struct but %s", name, show(o.Type().Underlying()))
	}
	var l []string
	for i := 0; i < st.NumFields(); i++ {
		l = append(l, st.Field(i).Name()+" "+showField(st.Field(i).Type())+" "+reflect.StructTag(st.Tag(i)).Get("json"))
	}
	return l, nil
}

// showField resolves aliases of helper types (Decimal, Timestamp) but keeps defined types.
func showField(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return "*" + showField(u.Elem())
	case *types.Slice:
		return "[]" + showField(u.Elem())
	case *types.Map:
		return "map[" + showField(u.Key()) + "]" + showField(u.Elem())
	default:
		return show(u)
	}
}

func hasMethod(p *types.Package, name, method, sig string) bool {
	o, ok := p.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return false
	}
	ms := types.NewMethodSet(types.NewPointer(o.Type()))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == method {
			return strings.Contains(show(ms.At(i).Type()), sig)
		}
	}
	return false
}

// Compare checks the package against the model; the result lists the differences.
func (a *GoAPI) Compare(p *types.Package) []string {
	var diffs []string
	bad := func(f string, args ...interface{}) { diffs = append(diffs, fmt.Sprintf(f, args...)) }
	s := a.V.S
	cmp := func(name string, want []string) {
		got, err := structOf(p, name)
		if err != nil {
			bad("%v", err)
			return
		}
		w := unalias(strings.Join(want, "; "))
		w = strings.ReplaceAll(w, "[]byte", "[]uint8")
		g := strings.ReplaceAll(unalias(strings.Join(got, "; ")), "[]byte", "[]uint8")
		if g != w {
			bad("struct %s is {%s}, want {%s}", name, g, w)
		}
	}
	exc := map[string]bool{}
	known := map[string]bool{a.Service: true}
	var methods []string
	for _, h := range s.Http {
		n := Cap(h.Name)
		var in, out []*sadl.StructFieldDef
		for _, i := range h.Inputs {
			in = append(in, &i.StructFieldDef)
		}
		for _, o := range h.Expected.Outputs {
			out = append(out, &o.StructFieldDef)
		}
		cmp(n+"Request", a.fields(in))
		cmp(n+"Response", a.fields(out))
		known[n+"Request"], known[n+"Response"] = true, true
		methods = append(methods, fmt.Sprintf("%s(*%sRequest) (*%sResponse, error)", n, n, n))
		for _, e := range h.Exceptions {
			exc[e.Type] = true
		}
	}
	if o, ok := p.Scope().Lookup(a.Service).(*types.TypeName); !ok {
		bad("there is no service interface %s", a.Service)
	} else if it, ok := o.Type().Underlying().(*types.Interface); !ok {
		bad("%s is not an interface", a.Service)
	} else {
		var got []string
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			sg := m.Type().(*types.Signature)
			var ps, rs []string
			for k := 0; k < sg.Params().Len(); k++ {
				ps = append(ps, show(sg.Params().At(k).Type()))
			}
			for k := 0; k < sg.Results().Len(); k++ {
				rs = append(rs, show(sg.Results().At(k).Type()))
			}
			got = append(got, m.Name()+"("+strings.Join(ps, ", ")+") ("+strings.Join(rs, ", ")+")")
		}
		sort.Strings(got)
		sort.Strings(methods)
		if strings.Join(got, "; ") != strings.Join(methods, "; ") {
			bad("interface %s has {%s}, want {%s}", a.Service, strings.Join(got, "; "), strings.Join(methods, "; "))
		}
	}
	for _, td := range s.Types {
		known[td.Name] = true
		o, ok := p.Scope().Lookup(td.Name).(*types.TypeName)
		if !ok {
			bad("there is no type %s", td.Name)
			continue
		}
		under := strings.ReplaceAll(unalias(showField(o.Type().Underlying())), "[]byte", "[]uint8")
		var want string
		switch td.Type {
		case "Struct":
			cmp(td.Name, a.fields(td.Fields))
			if exc[td.Name] != hasMethod(p, td.Name, "Error", "() string") {
				bad("%s: is an exception type: %v, implements error: %v", td.Name, exc[td.Name], !exc[td.Name])
			}
			continue
		case "Union":
			known[td.Name+"VariantTag"] = true
			fs := []string{"Variant " + td.Name + "VariantTag -"}
			vals := map[string]bool{"0": true}
			for _, v := range td.Variants {
				t := a.Type(v.Type, v.Keys, v.Items)
				for _, vd := range s.Types {
					if vd.Name == v.Type && vd.Type == "Union" {
						t = "*" + t
					}
				}
				fs = append(fs, Cap(v.Name)+" "+t+" "+v.Name+",omitempty")
				k, ok := p.Scope().Lookup(td.Name + "VariantTag" + Cap(v.Name)).(*types.Const)
				if !ok || show(k.Type()) != td.Name+"VariantTag" || vals[k.Val().ExactString()] {
					bad("%s: no distinct tag for variant %s", td.Name, v.Name)
					continue
				}
				vals[k.Val().ExactString()] = true
			}
			cmp(td.Name, fs)
			continue
		case "Enum":
			vals := map[string]bool{"0": true}
			for _, el := range td.Elements {
				k, ok := p.Scope().Lookup(el.Symbol).(*types.Const)
				if !ok || show(k.Type()) != td.Name || k.Val().Kind() != constant.Int || vals[k.Val().ExactString()] {
					bad("%s: no distinct constant for symbol %s", td.Name, el.Symbol)
					continue
				}
				vals[k.Val().ExactString()] = true
			}
			if !hasMethod(p, td.Name, "String", "() string") || !hasMethod(p, td.Name, "MarshalJSON", "") || !hasMethod(p, td.Name, "UnmarshalJSON", "") {
				bad("%s: enum methods are missing", td.Name)
			}
			continue
		case "Array":
			want = "[]" + a.Type(td.Items, "", "")
		case "Map":
			want = "map[" + a.Type(td.Keys, "", "") + "]" + a.Type(td.Items, "", "")
		case "Decimal", "Timestamp":
			if got := showField(o.Type()); got != strings.TrimPrefix(a.Type(td.Type, "", ""), "*") {
				bad("type %s is %s", td.Name, got)
			}
			continue
		default:
			want = a.Type(td.Type, "", "")
		}
		want = strings.ReplaceAll(unalias(want), "[]byte", "[]uint8")
		if under != want {
			bad("type %s is %s, want %s", td.Name, under, want)
		}
		switch td.Type {
		case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64":
			f, ok := p.Scope().Lookup(td.Name + "FromString").(*types.Func)
			if !ok || show(f.Type()) != "func(s string) "+td.Name && show(f.Type()) != "func(string) "+td.Name {
				bad("no function %sFromString", td.Name)
			}
		}
	}
	for _, n := range p.Scope().Names() {
		if _, ok := p.Scope().Lookup(n).(*types.TypeName); ok && !known[n] && n != "Timestamp" && n != "Decimal" && n[0] >= 'A' && n[0] <= 'Z' {
			bad("unexpected type %s", n)
		}
	}
	return diffs
}
