// C25: a model saved as JSON and loaded again is the same model, to every consumer.
package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"

	"github.com/boynton/sadl"

	"verif/mon"
	"verif/ops"
	"verif/src"
)

var exports = []string{"openapi", "openapi-print", "graphql", "go", "java", "httptrace", "equivalent", "find", "smithy", "smithy-ast", "source"}

func main() {
	mon.Main(mon.Spec{Prop: "C25",
		Rule:        "random models over the whole language parsed from source, saved as JSON (Pretty and Marshal) and loaded with LoadModel and with Unmarshal and NewModel; compared node by node, by the verdict on the same good and bad values, and by the output of every exporter (OpenAPI, GraphQL, Go, Java, HTTP trace, SADL source); files that are cut, damaged, followed by more data, not models, missing or directories must be refused, and IsValidFile must agree; non-trivial = distinct model",
		Assumptions: []string{"models read with plain Unmarshal are compared when their numbers are exact in a float64", "the tokenizer is the stand-in in shim/scanner", "an exporter that refuses the model has to refuse it for either"},
		MinEvents:   map[string]int{"loaded": 300, "verdict": 3000, "refused file": 500, "export openapi": 50, "export go": 50, "export java": 50, "export httptrace": 50, "export graphql": 20}},
		func(r *mon.Run) {
			r.Cases("model", r.Scale(600, 12000), func(i int, rnd *mon.Rand) { one(r, i, rnd) })
		})
}

func one(r *mon.Run, i int, rnd *mon.Rand) {
	g, s := src.Schema(rnd)
	text, _ := src.Write(rnd, s, true)
	r.Note(text)
	m, err := sadl.ParseSadlString(text, sadl.NewData())
	if err != nil {
		r.Failf("rejected", "valid source was rejected: %v\n%s", err, text)
		return
	}
	dir := r.Scratch()
	f := filepath.Join(dir, "model.json")
	saved := sadl.Pretty(m)
	if rnd.Bool() {
		b, err := json.Marshal(m)
		if err != nil {
			r.Failf("marshal", "cannot marshal a model: %v\n%s", err, text)
			return
		}
		saved = string(b)
	}
	write := func(t string) {
		if err := os.WriteFile(f, []byte(t), 0644); err != nil {
			mon.Bug("%v", err)
		}
	}
	write(saved)
	r.Observe(saved, true)
	l, err := sadl.LoadModel(f)
	if err != nil {
		r.Failf("load", "cannot load a saved model: %v\n%s", err, saved)
		return
	}
	if !sadl.IsValidFile(f) {
		r.Failf("isvalid", "IsValidFile denies a saved model\n%s", saved)
	}
	r.Event("loaded")
	want := src.Canon(&m.Schema)
	if got := src.Canon(&l.Schema); got != want {
		r.Failf("differs", "the loaded model differs from the saved one\n%s\n%s", src.Diff(want, got), text)
		return
	}
	if a, b := sadl.DecompileSadl(m), sadl.DecompileSadl(l); a != b {
		r.Failf("source", "the source of the loaded model differs\n%s", src.Diff(a, b))
	}
	var plain sadl.Schema
	if err := json.Unmarshal([]byte(saved), &plain); err != nil {
		r.Failf("unmarshal", "cannot unmarshal a saved model: %v\n%s", err, saved)
		return
	}
	models := []*sadl.Model{m, l}
	routes := []string{"parsed", "loaded"}
	if src.Canon(&plain) == want { // numbers exact
		p, err := sadl.NewModel(&plain)
		if err != nil {
			r.Failf("newmodel", "NewModel refuses an unmarshalled model: %v\n%s", err, saved)
			return
		}
		models, routes = append(models, p), append(routes, "unmarshalled")
		r.Event("plain")
	}
	for _, x := range models[1:] {
		for _, td := range x.Types {
			if x.FindType(td.Name) != td {
				r.Failf("index", "type %s is not found in the loaded model\n%s", td.Name, saved)
			}
		}
	}
	// verdicts
	for _, td := range s.Types {
		for k := 0; k < 3; k++ {
			v := g.Value(&sadl.TypeSpec{Type: td.Name}, k*15, 0)
			a := m.Validate("x", td.Name, v) == nil
			for n, x := range models[1:] {
				r.Event("verdict")
				if b := x.Validate("x", td.Name, v) == nil; a != b {
					r.Failf("verdict", "%s against %s: %v by the parsed model, %v by the %s one\n%s", mon.JSON(v), td.Name, a, b, routes[n+1], saved)
				}
			}
		}
	}
	// exports
	w := &ops.World{Seed: rnd.U64() >> 1, Models: models}
	before := w.State()
	for k := 0; k < 3; k++ {
		name := exports[(i*3+k)%len(exports)]
		arg := uint64(rnd.Intn(4))
		res := make([]ops.Result, len(models))
		for n := range models {
			res[n] = w.Do(ops.Op{Name: name, Model: n, Arg: arg}, filepath.Join(dir, "out"), true)
			if strings.HasPrefix(res[n].Out, "panic: ") {
				r.Failf("panic-"+name, "%s of the %s model: %s\n%s", name, routes[n], res[n].Out, text)
				return
			}
		}
		if res[0].Err != "" {
			r.Event("refused by " + name)
		} else {
			r.Event("export " + name)
		}
		for n := range res[1:] {
			if !ops.Same(res[0], res[n+1]) {
				r.Failf("export-"+name, "%s gives another result for the %s model than for the parsed one (%q, %q)\n%s\n%s", name, routes[n+1], res[0].Err, res[n+1].Err, src.Diff(res[0].Out, res[n+1].Out), text)
			}
		}
	}
	if w.State() != before {
		r.Failf("changed", "an export changed the model\n%s", text)
	}
	// files that are not a model
	bad := map[string]string{
		"cut":           saved[:rnd.Intn(len(strings.TrimSpace(saved)))],
		"followed":      saved + rnd.Pick("}", "{}", "x", "1", saved, ",", "]"),
		"not a model":   rnd.Pick("{}", "[]", "1", "null", "\"sadl\"", "{\"openapi\": \"3.0.0\"}", "{\"swagger\": \"2.0\"}", "{\"name\": \"x\"}", "{\"sadl\": \"\"}", "{\"sadl\": 1}", "{\"sadl\": \"1\", \"types\": 3}", "{\"sadl\": \"1\", \"types\": [{\"name\": 4}]}"),
		"empty":         "",
		"comma dropped": strings.Replace(saved, ",", " ", 1),
	}
	if len(s.Types) > 0 {
		d := *s
		d.Types = append(d.Types[:len(d.Types):len(d.Types)], d.Types[rnd.Intn(len(d.Types))])
		bad["duplicate type"] = mon.JSON(&d)
	}
	refuse := func(what, t string) {
		r.Event("refused file")
		r.Event("refused: " + what)
		x, err := sadl.LoadModel(f)
		if err == nil || x != nil {
			r.Failf("accepted", "LoadModel accepted a file that is not a model (%s)\n%s", what, t)
		}
		if sadl.IsValidFile(f) {
			r.Failf("isvalid", "IsValidFile accepted a file that is not a model (%s)\n%s", what, t)
		}
	}
	for what, t := range bad {
		if what == "comma dropped" && t == saved {
			continue
		}
		write(t)
		r.Note(t)
		refuse(what, t)
	}
	os.Remove(f)
	refuse("missing", "")
	os.Mkdir(f, 0755)
	refuse("directory", "")
	os.Remove(f)
}
