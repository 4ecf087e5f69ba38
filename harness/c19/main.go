// C19: every conversion is a function of its input: history, repetition and process do not matter, inputs stay as they were.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/mon"
	"verif/ops"
)

type job struct {
	Seed uint64
	Op   ops.Op
	Dir  string
}

func main() {
	if t := os.Getenv("OPS_CHILD"); t != "" { // one conversion in a process of its own
		var j job
		if err := json.Unmarshal([]byte(t), &j); err != nil {
			mon.Bug("%v", err)
		}
		out := os.Stdout // the library may print
		os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		b, _ := json.Marshal(ops.New(j.Seed).Do(j.Op, j.Dir, true))
		out.Write(b)
		return
	}
	mon.Main(mon.Spec{Prop: "C19", Quick: 2,
		Rule:        "random histories of exports (OpenAPI, GraphQL, Smithy, Go, Java, HTTP trace, SADL source), imports (SADL source, OpenAPI, Swagger, GraphQL, Smithy), validations, lookups and refactorings, interleaved over several models in one process; every result (returned, printed or written) is compared with that of the same conversion executed alone in a fresh process, and with its earlier results in the history; after each conversion all models are compared with what they were; non-trivial = distinct history",
		Assumptions: []string{"the date in the HTTP trace is masked", "which of several errors is reported may vary"},
		MinEvents: map[string]int{"conversion": 2000, "fresh process": 600, "repeated": 300, "op openapi": 60, "op graphql": 60, "op go": 100, "op java": 100, "op httptrace": 60, "op validate": 100,
			"op import-openapi": 60, "op import-swagger": 60, "op import-graphql": 60, "op enums": 60, "op smithy": 60, "op smithy-ast": 60, "op smithy-text": 60, "op source": 60, "op import-smithy": 60, "op parse": 60}},
		func(r *mon.Run) {
			r.Cases("history", r.Scale(400, 8000), func(i int, g *mon.Rand) { one(r, g) })
		})
}

func alone(r *mon.Run, j job) ops.Result {
	self, _ := os.Executable()
	b, _ := json.Marshal(j)
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "OPS_CHILD="+string(b))
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	var res ops.Result
	if e := json.Unmarshal(out.Bytes(), &res); err != nil || e != nil {
		if strings.Contains(errs.String(), "HARNESS") {
			mon.Bug("%s", errs.String())
		}
		res = ops.Result{Out: fmt.Sprintf("process died: %v %.2000s", err, errs.String())}
	}
	r.Event("fresh process")
	return res
}

func diff(a, b ops.Result) string {
	x, y := strings.Split(a.Out, "\n"), strings.Split(b.Out, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "(end)", "(end)"
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("line %d\n  alone:   %.300s\n  history: %.300s\nerrors: %q / %q", i+1, p, q, a.Err, b.Err)
		}
	}
	return fmt.Sprintf("errors: %q / %q", a.Err, b.Err)
}

func one(r *mon.Run, g *mon.Rand) {
	var ws []*ops.World
	for k, n := 0, g.Range(1, 3); k < n; k++ {
		ws = append(ws, ops.New(g.U64()>>1))
	}
	dir := r.Scratch()
	defer os.RemoveAll(dir)
	type step struct {
		w  int
		op ops.Op
	}
	var hist []step
	for i, w := range ws {
		for _, o := range w.Ops(g, g.Range(4, 10)) {
			hist = append(hist, step{i, o})
		}
	}
	var order []step
	for _, k := range g.Perm(len(hist)) {
		order = append(order, hist[k])
	}
	for k, n := 0, len(order)/2; k < n; k++ { // repetitions
		order = append(order, order[g.Intn(len(order))])
	}
	want := map[string]ops.Result{}
	var desc []string
	for _, s := range order {
		desc = append(desc, fmt.Sprintf("%d:%v", s.w, s.op))
	}
	key := strings.Join(desc, " ")
	r.Observe(fmt.Sprint(ws[0].Seed, key), true)
	r.Note(key)
	state := make([]string, len(ws))
	for i, w := range ws {
		state[i] = w.State()
	}
	for k, s := range order {
		id := fmt.Sprintf("%d:%v", s.w, s.op)
		got := ws[s.w].Do(s.op, filepath.Join(dir, "out"), true)
		r.Event("conversion")
		r.Event("op " + s.op.Name)
		if got.Err != "" {
			r.Event("refused " + s.op.Name)
		}
		if strings.HasPrefix(got.Out, "panic: ") {
			r.Failf("panic", "%s (world seed %d): %s\nhistory %s", id, ws[s.w].Seed, got.Out, key)
			return
		}
		if w, ok := want[id]; ok {
			r.Event("repeated")
			if !ops.Same(w, got) {
				r.Failf("repeated", "step %d, %s (world seed %d) gives another result than before or alone: %s\nhistory %s", k, id, ws[s.w].Seed, diff(w, got), key)
				return
			}
		} else {
			w := alone(r, job{ws[s.w].Seed, s.op, filepath.Join(dir, "out")})
			want[id] = w
			if !ops.Same(w, got) {
				r.Failf("history", "step %d, %s (world seed %d) gives another result than alone in a fresh process: %s\nhistory %s", k, id, ws[s.w].Seed, diff(w, got), key)
				return
			}
		}
		for i, w := range ws {
			if t := w.State(); t != state[i] {
				r.Failf("changed", "step %d, %s changed a model of world %d\nfrom %.4000s\nto   %.4000s\nhistory %s", k, id, i, state[i], t, key)
				return
			}
		}
	}
}
