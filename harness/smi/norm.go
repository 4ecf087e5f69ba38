package smi

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"verif/mon"
)

// flags are traits without a value: true and {} mean the same.
var flags = map[string]bool{"required": true, "readonly": true, "idempotent": true, "httpLabel": true, "httpPayload": true, "input": true, "output": true, "sensitive": true}

// Norm gives a value as generic JSON with exact numbers, and without what makes no difference in an AST.
func Norm(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		mon.Bug("norm: %v", err)
	}
	x, err := Parse(string(b))
	if err != nil {
		mon.Bug("norm: %v", err)
	}
	return x
}

func Parse(text string) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("text after the document")
	}
	return canon(x), nil
}

func canon(v interface{}) interface{} {
	switch t := v.(type) {
	case json.Number:
		r, ok := new(big.Rat).SetString(t.String())
		if !ok {
			mon.Bug("number %s", t)
		}
		return "number " + r.RatString()
	case []interface{}:
		for i := range t {
			t[i] = canon(t[i])
		}
	case map[string]interface{}:
		for k, x := range t {
			x = canon(x)
			if m, ok := x.(map[string]interface{}); ok && len(m) == 0 {
				if n := strings.TrimPrefix(k, "smithy.api#"); n != k && flags[n] {
					x = true
				} else if k == "traits" || k == "metadata" || k == "members" {
					delete(t, k)
					continue
				}
			}
			if k == "smithy.api#documentation" && x == "" {
				delete(t, k)
				continue
			}
			t[k] = x
		}
	}
	return v
}

// Orders gives the members of every shape of an AST in the order of the text.
func Orders(text string) map[string][]string {
	out := map[string][]string{}
	d := json.NewDecoder(bytes.NewReader([]byte(text)))
	var path []string
	var walk func()
	walk = func() {
		t, err := d.Token()
		if err != nil {
			return
		}
		switch t {
		case json.Delim('{'):
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return
				}
				if len(path) == 3 && path[0] == "shapes" && path[2] == "members" {
					out[path[1]] = append(out[path[1]], k.(string))
				}
				path = append(path, k.(string))
				walk()
				path = path[:len(path)-1]
			}
			d.Token()
		case json.Delim('['):
			for d.More() {
				path = append(path, "[]")
				walk()
				path = path[:len(path)-1]
			}
			d.Token()
		}
	}
	walk()
	return out
}

var PreludeShapes = map[string]bool{"Blob": true, "Boolean": true, "String": true, "Byte": true, "Short": true, "Integer": true, "Long": true, "Float": true, "Double": true,
	"BigInteger": true, "BigDecimal": true, "Timestamp": true, "Document": true, "Unit": true}

// Dangling gives the references of an AST that lead nowhere, and the number of those that do not.
func Dangling(doc interface{}) (bad []string, good int) {
	shapes, _ := doc.(M)["shapes"].(M)
	check := func(id string) {
		if n := strings.TrimPrefix(id, "smithy.api#"); n != id {
			if PreludeShapes[n] {
				good++
				return
			}
		} else if _, ok := shapes[id]; ok {
			good++
			return
		}
		bad = append(bad, id)
	}
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch t := v.(type) {
		case M:
			for k, x := range t {
				if s, ok := x.(string); ok && k == "target" {
					check(s)
				} else if k == "smithy.api#examples" {
					for _, e := range x.([]interface{}) {
						if m, ok := e.(M)["error"].(M); ok {
							check(fmt.Sprint(m["shapeId"]))
						}
					}
				} else {
					walk(x)
				}
			}
		case []interface{}:
			for _, x := range t {
				walk(x)
			}
		}
	}
	for _, x := range shapes {
		walk(x)
	}
	return bad, good
}
