package gql

import (
	"fmt"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/graphql-go/graphql/language/ast"
	"github.com/graphql-go/graphql/language/parser"
	"github.com/graphql-go/graphql/language/source"

	"verif/mon"
)

type side struct {
	s      *sadl.Schema
	custom map[string]string
	used   map[string]bool
}

func (e *side) find(n string) *sadl.TypeDef {
	for _, td := range e.s.Types {
		if td.Name == n {
			return td
		}
	}
	return nil
}

// ref is the GraphQL notation for a SADL type, written from the mapping in the documentation.
func (e *side) ref(t, items string) string {
	if t == "Array" {
		return "[" + e.ref(items, "") + "!]"
	}
	if td := e.find(t); td != nil {
		if td.Type == "Struct" || td.Type == "Enum" || td.Type == "Union" {
			return t
		}
		return e.ref(td.Type, td.Items)
	}
	def := map[string]string{"Bool": "Boolean", "String": "String", "UUID": "String", "Timestamp": "String", "Int8": "Int", "Int16": "Int", "Int32": "Int",
		"Float32": "Float", "Float64": "Float", "Int64": "Float", "Decimal": "Float"}[t]
	if def == "" {
		mon.Bug("no mapping for %s", t)
	}
	switch t {
	case "UUID", "Timestamp", "Int64", "Decimal":
		if c := e.custom[t]; c != "" {
			e.used[c] = true
			return c
		}
	}
	return def
}

func show(t ast.Type) string {
	switch t := t.(type) {
	case *ast.Named:
		return t.Name.Value
	case *ast.NonNull:
		return show(t.Type) + "!"
	case *ast.List:
		return "[" + show(t.Type) + "]"
	}
	return fmt.Sprintf("?%T", t)
}

// Parse reads a document with an independent parser.
func Parse(text string) (doc *ast.Document, err error) {
	// the parser loses its place after characters beyond ASCII, which only comments have
	text = strings.Map(func(c rune) rune {
		if c > 126 {
			return '?'
		}
		return c
	}, text)
	return parser.Parse(parser.ParseParams{Source: &source.Source{Body: []byte(text), Name: "x"}, Options: parser.ParseOptions{NoLocation: true}})
}

// Compare tells how an exported document differs from the model, under a mapping of custom scalars.
func Compare(r *mon.Run, s *sadl.Schema, custom map[string]string, text string) string {
	e := &side{s: s, custom: custom, used: map[string]bool{}}
	var want []string
	for _, td := range s.Types {
		switch td.Type {
		case "Enum":
			var l []string
			for _, el := range td.Elements {
				l = append(l, el.Symbol)
			}
			want = append(want, "enum "+td.Name+" "+strings.Join(l, ","))
			r.Event("enum")
		case "Struct":
			var l []string
			for _, f := range td.Fields {
				t := e.ref(f.Type, f.Items)
				if strings.HasPrefix(t, "[") {
					r.Event("list")
				}
				if strings.HasPrefix(t, "[[") {
					r.Event("nested list")
				}
				if f.Required {
					t += "!"
				}
				l = append(l, f.Name+":"+t)
				r.Event("field")
			}
			want = append(want, "type "+td.Name+" "+strings.Join(l, ","))
			r.Event("object")
		case "Union":
			var l []string
			for _, v := range td.Variants {
				l = append(l, v.Type)
			}
			want = append(want, "union "+td.Name+" "+strings.Join(l, "|"))
			r.Event("union")
		}
	}
	for c := range e.used {
		want = append(want, "scalar "+c)
		r.Event("custom scalar")
	}
	var got []string
	if strings.TrimSpace(text) != "" {
		doc, err := Parse(text)
		if err != nil {
			return fmt.Sprintf("the text is not GraphQL: %v", err)
		}
		for _, d := range doc.Definitions {
			switch d := d.(type) {
			case *ast.EnumDefinition:
				var l []string
				for _, v := range d.Values {
					l = append(l, v.Name.Value)
				}
				got = append(got, "enum "+d.Name.Value+" "+strings.Join(l, ","))
			case *ast.ObjectDefinition:
				var l []string
				for _, f := range d.Fields {
					t := f.Name.Value + ":" + show(f.Type)
					if len(f.Arguments)+len(f.Directives) > 0 {
						t += " with arguments"
					}
					l = append(l, t)
				}
				got = append(got, "type "+d.Name.Value+" "+strings.Join(l, ","))
			case *ast.UnionDefinition:
				var l []string
				for _, v := range d.Types {
					l = append(l, v.Name.Value)
				}
				got = append(got, "union "+d.Name.Value+" "+strings.Join(l, "|"))
			case *ast.ScalarDefinition:
				got = append(got, "scalar "+d.Name.Value)
			default:
				got = append(got, d.GetKind())
			}
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		return fmt.Sprintf("the exported definitions are\n%s\nexpected\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	return ""
}
