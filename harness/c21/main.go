// C21: parsing SADL source gives the model that the source describes, whatever its layout.
package main

import (
	"os"
	"path/filepath"

	"github.com/boynton/sadl"

	"verif/mon"
	"verif/src"
)

func main() {
	mon.Main(mon.Spec{Prop: "C21",
		Rule:        "random models over the whole language (types, actions, operations, examples, comments, annotations, defaults); each written as source in two random layouts by an independent printer and parsed back through ParseSadlString and ParseSadlFile; the JSON of the model compared with the intended one; non-trivial = distinct source text",
		Assumptions: []string{"the tokenizer is the stand-in in shim/scanner (the original is not available offline)", "quoted text outside literals has no escapes", "comments are compared by words"},
		MinEvents:   map[string]int{"parsed": 1000, "layout one-line body": 10, "layout no newline at the end": 10, "layout trailing comment": 10}},
		func(r *mon.Run) {
			r.Cases("model", r.Scale(2500, 40000), func(i int, rnd *mon.Rand) {
				_, s := src.Schema(rnd)
				want := src.Canon(s)
				for k := 0; k < 2; k++ {
					text, used := src.Write(rnd, s, k == 0 && i%4 == 0)
					r.Note(text)
					for u, n := range used {
						r.EventN("layout "+u, n)
					}
					var m *sadl.Model
					var err error
					if k == 1 && i%5 == 0 {
						f := filepath.Join(r.Scratch(), "model.sadl")
						if e := os.WriteFile(f, []byte(text), 0644); e != nil {
							mon.Bug("%v", e)
						}
						m, err = sadl.ParseSadlFile(f, sadl.NewData())
						os.Remove(f)
						r.Event("file")
					} else {
						m, err = sadl.ParseSadlString(text, sadl.NewData())
					}
					r.Event("parsed")
					r.Observe(text, true)
					if err != nil {
						r.Failf("rejected", "valid source was rejected: %v\n%s", err, text)
						return
					}
					if got := src.Canon(&m.Schema); got != want {
						r.Failf("model", "the parsed model is not the one in the source\n%s\n--- source:\n%s", src.Diff(want, got), text)
						return
					}
					r.Sample(text)
				}
			})
			// a model spread over files
			r.Cases("include", r.Scale(150, 2500), func(i int, rnd *mon.Rand) {
				_, s := src.Schema(rnd)
				dir := r.Scratch()
				inc := filepath.Join(dir, "part.sadl")
				main := filepath.Join(dir, "whole.sadl")
				a, b := *s, sadl.Schema{Sadl: s.Sadl, Name: "part"}
				k := rnd.Intn(len(s.Types) + 1)
				a.Types, b.Types = s.Types[k:], s.Types[:k]
				if rnd.Bool() {
					a.Http, b.Http = nil, s.Http
					a.Operations, b.Operations = nil, s.Operations
				}
				if rnd.Bool() {
					a.Examples, b.Examples = nil, s.Examples
				}
				ta, _ := src.Write(rnd, &a, false)
				tb, _ := src.Write(rnd, &b, false)
				ta = "include \"" + inc + "\"\n" + ta
				r.Note(ta + "\n---- " + inc + "\n" + tb)
				if os.WriteFile(inc, []byte(tb), 0644) != nil || os.WriteFile(main, []byte(ta), 0644) != nil {
					mon.Bug("cannot write")
				}
				m, err := sadl.ParseSadlFile(main, sadl.NewData())
				r.Event("included")
				r.Observe(ta+tb, true)
				if err != nil {
					r.Failf("include-rejected", "a valid source with an included file was rejected: %v\n%s\n----\n%s", err, ta, tb)
					return
				}
				tag := func(m map[string]string) map[string]string {
					n := map[string]string{"x_include": inc}
					for k, v := range m {
						if k != "x_include" {
							n[k] = v
						}
					}
					return n
				}
				for _, t := range b.Types {
					t.Annotations = tag(t.Annotations)
				}
				for _, t := range b.Http {
					t.Annotations = tag(t.Annotations)
				}
				for _, t := range b.Operations {
					t.Annotations = tag(t.Annotations)
				}
				for _, t := range b.Examples {
					t.Annotations = tag(t.Annotations)
				}
				if want, got := src.Canon(s), src.Canon(&m.Schema); got != want {
					r.Failf("include-model", "the model of a source with an included file is not the one described\n%s\n%s\n----\n%s", src.Diff(want, got), ta, tb)
				}
			})
		})
}
