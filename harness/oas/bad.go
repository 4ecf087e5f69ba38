package oas

import "verif/mon"

// BadSchema is a schema no SADL type stands for, possibly deep inside an otherwise good one. With notObject the outermost schema is not an object.
func BadSchema(g *mon.Rand, notObject, v2 bool) (map[string]interface{}, string) {
	type m = map[string]interface{}
	bad, what := m{"type": g.Pick("null", "file", "String", "foo")}, "an unknown type"
	if g.P(30) {
		bad, what = m{"type": "string", "enum": []interface{}{"a", 1.0}}, "a string enum with a number"
	}
	if v2 && bad["enum"] != nil {
		bad, what = m{"type": "Integer"}, "an unknown type"
	}
	n := g.Intn(4)
	for i := 0; i < n; i++ {
		k := g.Intn(4)
		if i == n-1 && notObject {
			k = 0
		}
		switch k {
		case 0:
			bad, what = m{"type": "array", "items": bad}, what+" of array items"
		case 1:
			bad, what = m{"type": "object", "additionalProperties": bad}, what+" of map values"
		case 2:
			if !v2 {
				bad, what = m{"oneOf": []interface{}{m{"type": "string"}, bad}}, what+" of a variant"
				break
			}
			fallthrough
		case 3:
			bad, what = m{"type": "object", "properties": m{"fine": m{"type": "string"}, g.Pick("a", "z"): bad}}, what+" of a property"
		}
	}
	return bad, what
}
