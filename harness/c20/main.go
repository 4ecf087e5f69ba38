// C20: conversions of one model in several goroutines do not disturb each other.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/mon"
	"verif/ops"
)

func main() {
	mon.Main(mon.Spec{Prop: "C20", Quick: 2, Env: []string{"GORACE=halt_on_error=1 exitcode=66"},
		Rule:        "under the race detector, goroutines released together execute random lists of exports, imports, validations and lookups on shared models (of which no conversion has been executed before) and on models of their own, with random yields and processor counts; a data race ends the worker process and is the violation; every result is compared with that of the same conversion executed alone afterwards on a copy of the model, and the models with what they were; non-trivial = distinct schedule of conversions",
		Assumptions: []string{"what the exporters print is not compared here, only what they return and write", "ThreadSanitizer (go -race) reports a race when two unordered conflicting accesses are executed"},
		MinEvents: map[string]int{"conversion": 3000, "goroutine": 800, "overlap": 1000, "shared": 1500, "op openapi": 100, "op graphql": 100, "op go": 150, "op java": 150, "op httptrace": 60, "op validate": 100,
			"op import-openapi": 60, "op import-swagger": 60, "op import-graphql": 60, "op enums": 60, "op smithy": 60, "op smithy-ast": 60, "op smithy-text": 60, "op source": 60, "op import-smithy": 60, "op parse": 60}},
		func(r *mon.Run) {
			os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
			r.Cases("schedule", r.Scale(400, 6000), func(i int, g *mon.Rand) { one(r, g) })
		})
}

type done struct {
	w   int
	op  ops.Op
	res ops.Result
	at  [2]int64
}

func one(r *mon.Run, g *mon.Rand) {
	var ws []*ops.World
	for k, n := 0, g.Range(1, 2); k < n; k++ {
		ws = append(ws, ops.New(g.U64()>>1))
	}
	state := make([]string, len(ws))
	for i, w := range ws {
		state[i] = w.State()
	}
	dir := r.Scratch()
	defer os.RemoveAll(dir)
	n := g.Range(3, 8)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(g.Pick0(2, 4, 8)))
	type plan struct {
		w     int
		op    ops.Op
		yield int
	}
	plans := make([][]plan, n)
	same := g.P(30) // everyone does the same
	var desc []string
	for k := range plans {
		if same && k > 0 {
			plans[k] = plans[0]
			continue
		}
		for j, m := 0, g.Range(2, 5); j < m; j++ {
			w := g.Intn(len(ws))
			plans[k] = append(plans[k], plan{w, ws[w].Ops(g, 1)[0], g.Intn(4)})
		}
		desc = append(desc, fmt.Sprint(plans[k]))
	}
	key := strings.Join(desc, " | ")
	r.Observe(fmt.Sprint(ws[0].Seed, n, key), true)
	r.Note(fmt.Sprintf("%d goroutines: %s", n, key))
	begin := time.Now()
	tick := func() int64 { return int64(time.Since(begin)) } // no lock: it would order the conversions
	results := make([][]done, n)
	start := make(chan bool)
	var wg sync.WaitGroup
	for k := range plans {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			for j, p := range plans[k] {
				for y := 0; y < p.yield; y++ {
					runtime.Gosched()
				}
				var d done
				d.w, d.op = p.w, p.op
				d.at[0] = tick()
				d.res = ws[p.w].Do(p.op, filepath.Join(dir, fmt.Sprintf("g%d-%d", k, j)), false)
				d.at[1] = tick()
				results[k] = append(results[k], d)
			}
		}(k)
	}
	close(start)
	wg.Wait()
	r.EventN("goroutine", n)
	fresh := make([]*ops.World, len(ws))
	want := map[string]ops.Result{}
	for i, w := range ws {
		fresh[i] = w.Copy()
		if t := w.State(); t != state[i] {
			r.Failf("changed", "a model of world %d changed\nfrom %.4000s\nto   %.4000s\n%s", i, state[i], t, key)
			return
		}
	}
	var all []done
	for _, l := range results {
		all = append(all, l...)
	}
	for i, d := range all {
		r.Event("conversion")
		r.Event("op " + d.op.Name)
		if d.op.Model >= 0 {
			r.Event("shared")
		}
		for _, e := range all[:i] {
			if e.at[0] < d.at[1] && d.at[0] < e.at[1] {
				r.Event("overlap")
				break
			}
		}
		if strings.HasPrefix(d.res.Out, "panic: ") {
			r.Failf("panic", "%v: %s\n%s", d.op, d.res.Out, key)
			return
		}
		id := fmt.Sprint(d.w, d.op)
		if _, ok := want[id]; !ok {
			want[id] = fresh[d.w].Do(d.op, filepath.Join(dir, "seq"), false)
		}
		if !ops.Same(want[id], d.res) {
			r.Failf("result", "%v gives another result among other conversions than alone:\nalone: %.3000s %s\nhere: %.3000s %s\n%s", d.op, want[id].Out, want[id].Err, d.res.Out, d.res.Err, key)
			return
		}
	}
}
