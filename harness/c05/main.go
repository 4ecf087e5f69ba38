// C05: generated files are complete, confined to the output directory, never silently overwritten or lost.
package main

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"text/template"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/java"

	"verif/gen"
	"verif/mon"
)

func main() {
	mon.Main(mon.Spec{Prop: "C05", Level: "fault_enumeration",
		Rule:        "(1) random histories of file writes (new, existing, directory, missing directory, full device, size-limited) checked against a model of the directory tree; (2) for generated models and options, every output file of the Go and Java exporters in turn gets a pre-existing file, a directory, a full device or a file size limit, and the resulting tree and returned error are compared with a clean export; (3) emit/template histories against a string model; non-trivial = distinct history or (model, options, fault, file)",
		Assumptions: []string{"faults are injected with real kernel errors: EISDIR, ENOENT, ENOTDIR, ENOSPC (/dev/full), EFBIG (RLIMIT_FSIZE)"},
		MinEvents:   map[string]int{"write": 1000, "write failed": 200, "kept existing": 200, "export": 200, "export fault reported": 200, "emit history": 200}},
		func(r *mon.Run) {
			signal.Ignore(syscall.SIGXFSZ)
			r.Cases("writes", r.Scale(800, 12000), func(i int, g *mon.Rand) { writes(r, g) })
			r.Cases("emit", r.Scale(800, 12000), func(i int, g *mon.Rand) { emits(r, g) })
			r.Cases("export", r.Scale(240, 3000), func(i int, g *mon.Rand) { exports(r, g, i) })
		})
}

// ---------------------------------------------------------------- trees

// tree describes everything below root.
func tree(root string) map[string]string {
	t := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			mon.Bug("walk: %v", err)
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			t[rel] = "->" + l
		case fi.IsDir():
			t[rel] = "dir"
		default:
			b, _ := os.ReadFile(p)
			t[rel] = "file:" + string(b)
		}
		return nil
	})
	return t
}

func diff(want, got map[string]string) string {
	var out []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			out = append(out, fmt.Sprintf("missing %s (%d bytes)", k, len(v)))
		} else if g != v {
			out = append(out, fmt.Sprintf("%s differs: want %.300q, got %.300q", k, v, g))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			out = append(out, fmt.Sprintf("unexpected %s: %.200q", k, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func limited(n int, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		mon.Bug("getrlimit: %v", err)
	}
	l := old
	l.Cur = uint64(n)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		mon.Bug("setrlimit: %v", err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// ---------------------------------------------------------------- (1) WriteFile histories

func content(g *mon.Rand) string {
	n := []int{0, 1, 10, 100, 4095, 4096, 4097, 8192, 20000, 70000}[g.Intn(10)]
	return strings.Repeat(g.Pick("a", "bc", "héllo\n", "x\x00y"), n)[:n]
}

func writes(r *mon.Run, g *mon.Rand) {
	root := r.Scratch()
	defer os.RemoveAll(root)
	os.Mkdir(filepath.Join(root, "sub"), 0755)
	os.Mkdir(filepath.Join(root, "adir"), 0755)
	os.WriteFile(filepath.Join(root, "pre.txt"), []byte("precious"), 0644)
	os.Symlink("/dev/full", filepath.Join(root, "full"))
	names := []string{"a.txt", "b.txt", "sub/c.txt", "pre.txt", "adir", "no/such/d.txt", "pre.txt/e.txt", "full", "sub/a.txt"}
	var hist []string
	for k, n := 0, g.Range(3, 14); k < n; k++ {
		want := tree(root)
		force := g.Intn(6)
		conf := sadl.NewData()
		on := false
		switch force {
		case 0:
			conf.Put("force-overwrite", true)
			on = true
		case 1:
			conf.Put("force-overwrite", "true")
			on = true
		case 2:
			conf.Put("force-overwrite", false)
		case 3:
			conf.Put("force-overwrite", "false")
		case 4:
			conf.Put("overwrite", true)
		}
		name, text := g.PickS(names), content(g)
		path := filepath.Join(root, name)
		limit := -1
		if g.P(15) {
			limit = g.Intn(len(text) + 1)
		}
		gn := &sadl.Generator{Config: conf, OutDir: root}
		hist = append(hist, fmt.Sprintf("write %s len %d force %d limit %d", name, len(text), force, limit))
		r.Note(strings.Join(hist, "\n"))
		earlier := g.P(10)
		if earlier {
			gn.Err = fmt.Errorf("earlier failure")
		}
		_, serr := os.Stat(path)
		exists := serr == nil
		if gn.FileExists(path) != exists {
			r.Failf("exists", "FileExists(%s) = %v, want %v", name, !exists, exists)
		}
		if limit >= 0 {
			limited(limit, func() { gn.WriteFile(path, text) })
		} else {
			gn.WriteFile(path, text)
		}
		r.Event("write")
		got := tree(root)
		fail := name == "adir" || name == "no/such/d.txt" || name == "pre.txt/e.txt" || (name == "full" && len(text) > 0) || (limit >= 0 && limit < len(text))
		switch {
		case earlier:
			if gn.Err == nil || gn.Err.Error() != "earlier failure" {
				r.Failf("forgot-error", "an earlier failure was replaced by %v\n%s", gn.Err, strings.Join(hist, "\n"))
			}
		case exists && !on: // keep
			if gn.Err != nil {
				r.Failf("keep-error", "keeping an existing file reported %v\n%s", gn.Err, strings.Join(hist, "\n"))
			}
			r.Event("kept existing")
		case fail:
			if gn.Err == nil {
				r.Failf("lost", "a write that cannot have completed reported no error\n%s", strings.Join(hist, "\n"))
			}
			r.Event("write failed")
			if limit >= 0 && !exists { // a partial new file may remain; nothing else may change
				delete(got, name)
				delete(want, name)
			} else if limit >= 0 && exists && on {
				delete(got, name)
				delete(want, name)
			}
		default:
			if gn.Err != nil {
				r.Failf("spurious", "a possible write failed: %v\n%s", gn.Err, strings.Join(hist, "\n"))
			}
			if name != "full" {
				want[name] = "file:" + text
			}
		}
		if earlier {
			delete(want, name)
			delete(got, name)
		}
		if d := diff(want, got); d != "" {
			r.Failf("tree", "after %s:\n%s", strings.Join(hist, "\n"), d)
			return
		}
	}
	r.Observe(strings.Join(hist, "|"), true)
}

// ---------------------------------------------------------------- (3) Begin/Emit/End

func emits(r *mon.Run, g *mon.Rand) {
	gn := &sadl.Generator{Config: sadl.NewData()}
	cur, begun, failed := "", false, false
	var hist []string
	step := func(s string) { hist = append(hist, s); r.Note(strings.Join(hist, "\n")) }
	for k, n := 0, g.Range(3, 20); k < n; k++ {
		switch g.Intn(7) {
		case 0:
			step("begin")
			gn.Begin()
			if !failed {
				cur, begun = "", true
			}
		case 1, 2, 3:
			s := content(g)
			step(fmt.Sprintf("emit %d", len(s)))
			gn.Emit(s)
			if begun && !failed {
				cur += s
			}
		case 4:
			step("template")
			arg := g.Pick("", "x", "<&>\"")
			gn.EmitTemplate("t", "[{{up .A}}|{{.A}}]", map[string]string{"A": arg}, template.FuncMap{"up": strings.ToUpper})
			if begun && !failed {
				cur += "[" + strings.ToUpper(arg) + "|" + arg + "]"
			}
		case 5:
			if g.P(30) && !failed {
				if g.Bool() {
					step("bad template (parse)")
					gn.EmitTemplate("t", "partial {{", nil, nil)
				} else {
					step("bad template (execution)")
					gn.EmitTemplate("t", "partial {{.A.B}}", map[string]int{"A": 1}, nil)
				}
				failed = true
			}
		case 6:
			step("end")
			got := gn.End()
			want := cur
			if failed {
				want = ""
			}
			if got != want {
				r.Failf("emit", "End gave %d bytes, want %d\n%s", len(got), len(want), strings.Join(hist, "\n"))
				return
			}
		}
		if (gn.Err != nil) != failed {
			r.Failf("emit-error", "error state %v, expected failed=%v\n%s", gn.Err, failed, strings.Join(hist, "\n"))
			return
		}
	}
	r.Event("emit history")
	r.Observe("emit "+strings.Join(hist, "|"), true)
}

// ---------------------------------------------------------------- (2) exporters

func exports(r *mon.Run, rnd *mon.Rand, i int) {
	g := gen.New(rnd, gen.Opts{Kinds: []string{"Struct", "Struct", "Enum", "String", "Array", "Union"}, FieldKinds: []string{"String", "Int32", "Int64", "Bool", "Float64", "Array", "Decimal", "Timestamp"},
		Comments: true, UniqueSymbols: true, MinTypes: 2, MaxTypes: 6})
	s := g.Types()
	g.Http(gen.HttpOpts{Methods: []string{"GET", "PUT", "POST", "DELETE"}, RequireBody: true, Min: 0, Max: 3, Query: true, ParamKinds: []string{"String", "Int32"}})
	m, err := sadl.NewModel(s)
	if err != nil {
		r.Failf("model", "%v", err)
		return
	}
	opts := map[string]interface{}{}
	lang := g.Pick("go", "java")
	if len(s.Http) > 0 {
		if g.Bool() {
			opts["server"] = true
		}
		if lang == "java" && g.Bool() {
			opts["client"] = true
		}
	}
	if g.P(30) {
		opts["package"] = g.Pick("pkg", "com.acme.gen", "a.b")
	}
	if lang == "java" && g.Bool() {
		opts["maven"] = true
	}
	if lang == "java" && g.P(30) {
		opts["source"] = "src"
	}
	if g.P(20) {
		opts["name"] = "renamed"
	}
	text := lang + mon.JSON(opts) + mon.JSON(s)
	r.Note(text)
	exp := func(dir string, force interface{}) (err error) {
		c := sadl.NewData()
		c.Put("dummy", true)
		for k, v := range opts {
			c.Put(k, v)
		}
		if force != nil {
			c.Put("force-overwrite", force)
		}
		r.Event("export")
		mon.Capture(func() {
			if lang == "go" {
				err = golang.Export(m, dir, c)
			} else {
				err = java.Export(m, dir, c)
			}
		})
		return err
	}
	root := r.Scratch()
	defer os.RemoveAll(root)
	n := 0
	box := func() (string, string) { // a parent with a bystander and an output directory inside
		n++
		top := filepath.Join(root, fmt.Sprint("t", n))
		os.MkdirAll(filepath.Join(top, "out"), 0755)
		os.WriteFile(filepath.Join(top, "bystander"), []byte("mine"), 0644)
		return top, filepath.Join(top, "out")
	}
	top, out := box()
	if err := exp(out, nil); err != nil {
		r.Failf("export", "%s export of a plain model failed: %v\n%s", lang, err, text)
		return
	}
	clean := tree(top)
	var files []string
	max := 0
	for k, v := range clean {
		if strings.HasPrefix(v, "file:") {
			if strings.HasPrefix(k, "out/") {
				files = append(files, k)
				if len(v)-5 == 0 {
					r.Failf("empty", "%s export wrote an empty file %s\n%s", lang, k, text)
				}
				if len(v)-5 > max {
					max = len(v) - 5
				}
			}
		}
		if k != "." && k != "out" && k != "bystander" && !strings.HasPrefix(k, "out/") {
			r.Failf("escape", "%s export wrote %s outside the output directory\n%s", lang, k, text)
		}
	}
	sort.Strings(files)
	if len(files) == 0 {
		r.Failf("nothing", "%s export wrote no file\n%s", lang, text)
		return
	}
	// the same again: nothing changes, and a missing output directory is made
	if err := exp(out, g.PickS2(nil, false, "false")); err != nil || diff(clean, tree(top)) != "" {
		r.Failf("again", "a second %s export changed files or failed (%v)\n%s\n%s", lang, err, diff(clean, tree(top)), text)
	}
	top, out = box()
	os.Remove(out)
	if err := exp(out, nil); err != nil || diff(clean, tree(top)) != "" {
		r.Failf("mkdir", "%s export into a new directory: %v\n%s\n%s", lang, err, diff(clean, tree(top)), text)
	}
	// the output directory is a file
	top, out = box()
	os.Remove(out)
	os.WriteFile(out, []byte("f"), 0644)
	before := tree(top)
	if err := exp(out, true); err == nil || diff(before, tree(top)) != "" {
		r.Failf("outdir-file", "%s export into a file: error %v\n%s", lang, err, diff(before, tree(top)))
	}
	if len(s.Http) > 0 {
		// the parts asked for, whole, whatever else is asked for
		part := func(model, server, client bool) map[string]string {
			old := opts
			opts = map[string]interface{}{"model": model, "server": server, "client": client}
			for k, v := range old {
				if k != "server" && k != "client" {
					opts[k] = v
				}
			}
			top, out := box()
			err := exp(out, nil)
			if err != nil {
				r.Failf("parts", "%s export with model=%v server=%v client=%v failed: %v\n%s", lang, model, server, client, err, text)
			}
			opts = old
			t := map[string]string{}
			for k, v := range tree(top) {
				if strings.HasPrefix(k, "out/") && strings.HasPrefix(v, "file:") {
					t[k] = v
				}
			}
			r.Event("export of parts")
			return t
		}
		none := part(false, false, false)
		one := []map[string]string{part(true, false, false), part(false, true, false), part(false, false, true)}
		for k, p := range one {
			if len(p) <= len(none) {
				r.Failf("parts", "%s export of part %d alone wrote %d files, of no part %d\n%s", lang, k, len(p), len(none), text)
			}
		}
		for k := range none {
			if filepath.Base(k) != "pom.xml" {
				r.Failf("parts", "%s export of no part wrote %s\n%s", lang, k, text)
			}
		}
		for k := range one[0] {
			_, b := one[1][k]
			_, c := one[2][k]
			if _, n := none[k]; !n && (b || c) {
				r.Failf("parts", "%s export wrote %s although the model was not asked for\n%s", lang, k, text)
			}
		}
		for mask := 3; mask < 8; mask++ {
			if mask == 4 {
				continue
			}
			want := map[string]string{}
			for k, p := range one {
				if mask&(1<<k) != 0 {
					for f, v := range p {
						want[f] = v
					}
				}
			}
			if d := diff(want, part(mask&1 != 0, mask&2 != 0, mask&4 != 0)); d != "" {
				r.Failf("parts", "%s export of parts %03b differs from the parts alone:\n%s\n%s", lang, mask, d, text)
			}
		}
	}
	for fi, f := range files {
		if len(files) > 8 && fi%3 != i%3 {
			continue
		}
		r.Observe(text+f, true)
		prep := func(kind string) (string, string, map[string]string) {
			top, out := box()
			p := filepath.Join(top, f)
			os.MkdirAll(filepath.Dir(p), 0755)
			want := map[string]string{}
			for k, v := range clean {
				want[k] = v
			}
			switch kind {
			case "file":
				os.WriteFile(p, []byte("user edits"), 0644)
				want[f] = "file:user edits"
			case "dir":
				os.Mkdir(p, 0755)
				want[f] = "dir"
			case "full":
				os.Symlink("/dev/full", p)
				want[f] = "->/dev/full"
			}
			return top, out, want
		}
		// existing file kept without the option
		top, out, want := prep("file")
		if err := exp(out, g.PickS2(nil, false, "false")); err != nil || diff(want, tree(top)) != "" {
			r.Failf("overwrote", "%s export with %s already present (error %v):\n%s\n%s", lang, f, err, diff(want, tree(top)), text)
		}
		r.Event("kept existing")
		// and replaced with it
		top, out, _ = prep("file")
		if err := exp(out, g.PickS2(true, "true")); err != nil || diff(clean, tree(top)) != "" {
			r.Failf("not-overwritten", "%s export with force-overwrite and %s present (error %v):\n%s\n%s", lang, f, err, diff(clean, tree(top)), text)
		}
		for _, kind := range []string{"dir", "full"} {
			top, out, want = prep(kind)
			err := exp(out, true)
			if err == nil {
				r.Failf("fault-"+kind, "%s export could not write %s (%s) but reported no error\n%s", lang, f, kind, text)
			} else {
				r.Event("export fault reported")
			}
			got := tree(top) // files after the failing one may be absent, nothing else may differ
			for k, v := range got {
				if w, ok := want[k]; !ok || w != v {
					r.Failf("fault-tree", "%s export with fault %s at %s left %s = %.200q\n%s", lang, kind, f, k, v, text)
				}
			}
		}
	}
	for _, lim := range []int{0, 1, max / 2, max - 1, max} {
		top, out = box()
		var err error
		limitedExp := func() {
			c := sadl.NewData()
			c.Put("dummy", true)
			for k, v := range opts {
				c.Put(k, v)
			}
			if lang == "go" {
				err = golang.Export(m, out, c)
			} else {
				err = java.Export(m, out, c)
			}
		}
		limited(lim, limitedExp)
		if lim < max && err == nil {
			r.Failf("limit", "%s export with files limited to %d bytes (largest is %d) reported no error\n%s", lang, lim, max, text)
		}
		if lim == max && (err != nil || diff(clean, tree(top)) != "") {
			r.Failf("limit-exact", "%s export with files limited to %d bytes (largest is %d) failed: %v", lang, lim, max, err)
		}
		r.Event("export fault reported")
	}
}
