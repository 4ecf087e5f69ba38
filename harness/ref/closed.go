package ref

import (
	"fmt"

	"github.com/boynton/sadl"
)

// Open lists what a model refers to but does not define, and names defined twice.
func Open(s *sadl.Schema) []string {
	var out []string
	defined := map[string]bool{}
	for _, n := range sadl.BaseTypes {
		defined[n] = true
	}
	for _, td := range s.Types {
		if td.Name == "" {
			out = append(out, "a type without a name")
		}
		if defined[td.Name] {
			out = append(out, "type "+td.Name+" is defined twice")
		}
		defined[td.Name] = true
	}
	var spec func(where string, ts *sadl.TypeSpec)
	use := func(where, what, name string) {
		if name != "" && !defined[name] {
			out = append(out, fmt.Sprintf("%s: %s %q is not defined", where, what, name))
		}
	}
	spec = func(where string, ts *sadl.TypeSpec) {
		if ts.Type == "" {
			out = append(out, where+": no type")
		}
		use(where, "type", ts.Type)
		use(where, "item type", ts.Items)
		use(where, "key type", ts.Keys)
		use(where, "unit type", ts.Unit)
		use(where, "value type", ts.Value)
		seen := map[string]bool{}
		for _, f := range ts.Fields {
			if seen[f.Name] {
				out = append(out, where+": field "+f.Name+" twice")
			}
			seen[f.Name] = true
			spec(where+"."+f.Name, &f.TypeSpec)
		}
		for _, v := range ts.Variants {
			spec(where+"|"+v.Name, &v.TypeSpec)
		}
		for _, e := range ts.Elements {
			if seen[e.Symbol] {
				out = append(out, where+": symbol "+e.Symbol+" twice")
			}
			seen[e.Symbol] = true
		}
	}
	for _, td := range s.Types {
		spec(td.Name, &td.TypeSpec)
	}
	names := map[string]bool{}
	for _, h := range s.Http {
		where := h.Method + " " + h.Path
		if names[h.Name] {
			out = append(out, where+": action "+h.Name+" twice")
		}
		names[h.Name] = true
		for _, p := range h.Inputs {
			spec(where+" input "+p.Name, &p.TypeSpec)
		}
		if h.Expected != nil {
			for _, p := range h.Expected.Outputs {
				spec(where+" output "+p.Name, &p.TypeSpec)
			}
		}
		for _, e := range h.Exceptions {
			use(where, "exception type", e.Type)
		}
	}
	for _, op := range s.Operations {
		for _, p := range op.Inputs {
			spec(op.Name+" input "+p.Name, &p.TypeSpec)
		}
		for _, p := range op.Outputs {
			spec(op.Name+" output "+p.Name, &p.TypeSpec)
		}
		for _, e := range op.Exceptions {
			use(op.Name, "exception type", e)
		}
	}
	return out
}
