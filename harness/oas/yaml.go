package oas

import (
	"encoding/json"
	"sort"
	"strings"
)

// YAML writes generic JSON as block style yaml; all keys and strings are quoted.
func YAML(v interface{}, indent string) string {
	switch t := v.(type) {
	case map[string]interface{}:
		if len(t) == 0 {
			return " {}\n"
		}
		var keys []string
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var b strings.Builder
		if indent != "" {
			b.WriteString("\n")
		}
		for _, k := range keys {
			b.WriteString(indent + quote(k) + ":" + YAML(t[k], indent+"  "))
		}
		return b.String()
	case []interface{}:
		if len(t) == 0 {
			return " []\n"
		}
		var b strings.Builder
		b.WriteString("\n")
		for _, x := range t {
			b.WriteString(indent + "-" + YAML(x, indent+"  "))
		}
		return b.String()
	}
	j, _ := json.Marshal(v)
	return " " + string(j) + "\n"
}

func quote(s string) string { b, _ := json.Marshal(s); return string(b) }
