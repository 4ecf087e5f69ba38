// C28: the command line tool converts exactly what it was given, and reports every failure.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/graphql"
	"github.com/boynton/sadl/httptrace"
	"github.com/boynton/sadl/java"
	"github.com/boynton/sadl/openapi"
	"github.com/boynton/sadl/smithy"

	"verif/gen"
	"verif/mon"
	"verif/oas"
	"verif/ops"
	"verif/smi"
	"verif/src"
)

func main() {
	mon.Main(mon.Spec{Prop: "C28",
		Rule:        "random inputs of every format (SADL source and JSON, OpenAPI JSON and YAML, Swagger, GraphQL, Smithy AST and text, single files, several files, directories with unrelated files, -t) given to the compiled tool with random generators, -x options, configuration files (-c, home), -n/-ns/-s/-b and -f over existing files; standard output and output directory compared byte by byte with the library conversion under the merged options; every kind of failing input, configuration or output must end with a message and a non-zero status; non-trivial = distinct command line and input",
		Assumptions: []string{"the tokenizer and the Smithy library are the stand-ins in shim/", "the configuration entry of the -model, -server, -client and -ast generators is that of the generator they are a shorthand for"},
		MinEvents:   map[string]int{"converted": 500, "failed as it should": 300, "output directory": 100, "config file": 100, "home config": 50, "option": 200, "directory": 50, "type given": 30, "existing file": 30, "full output": 30, "current directory": 20, "other path": 100, "question": 20}},
		func(r *mon.Run) {
			r.Cases("questions", 20, func(i int, g *mon.Rand) { asks(r, g) })
			r.Cases("cli", r.Scale(1500, 80000), func(i int, g *mon.Rand) { one(r, g, i) })
		})
}

const idlHeader = "//smithy stand-in, namespace x\n"

var formats = []string{"sadl", "sadl", "sadl-json", "openapi", "openapi-yaml", "swagger", "graphql", "smithy", "smithy-text", "smithy-files"}
var gens = []string{"", "sadl", "json", "sadl-ast", "smithy", "smithy-ast", "openapi", "graphql", "java", "java-model", "java-server", "java-client", "go", "go-model", "go-server", "go-client", "http-trace", "nonsense"}

type input struct {
	Type  string   // as for -t
	Names []string // relative to the working directory
}

func write(dir, name, text string) {
	f := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Dir(f), 0755); err != nil {
		mon.Bug("%v", err)
	}
	if err := os.WriteFile(f, []byte(text), 0644); err != nil {
		mon.Bug("%v", err)
	}
}

// make writes an input of a format into dir.
func make_(g *mon.Rand, format, dir, sub string) input {
	base := sub + g.Pick("spec", "my.api", "x_1", "Thing")
	switch format {
	case "sadl", "sadl-json":
		_, s := src.Schema(g)
		text, _ := src.Write(g, s, true)
		if format == "sadl" {
			write(dir, base+".sadl", text)
			return input{"sadl", []string{base + ".sadl"}}
		}
		m, err := sadl.ParseSadlString(text, sadl.NewData())
		if err != nil {
			mon.Bug("%v", err)
		}
		write(dir, base+".json", sadl.Pretty(m))
		return input{"sadl", []string{base + ".json"}}
	case "openapi", "openapi-yaml":
		d := &oas.DocGen{Rand: g}
		doc, _ := d.Doc("spec")
		if format == "openapi" {
			write(dir, base+".json", mon.JSON(doc))
			return input{"openapi", []string{base + ".json"}}
		}
		write(dir, base+".yaml", oas.YAML(oas.Norm(doc), ""))
		return input{"openapi", []string{base + ".yaml"}}
	case "swagger":
		d := &oas.DocGen{Rand: g, V2: true}
		doc, _ := d.Doc("spec")
		write(dir, base+".json", mon.JSON(doc))
		return input{"swagger", []string{base + ".json"}}
	case "graphql":
		write(dir, base+".graphql", ops.GraphQL(gen.New(g, gen.Opts{})))
		return input{"graphql", []string{base + ".graphql"}}
	case "smithy", "smithy-text", "smithy-files":
		d := &smi.DocGen{Rand: g}
		d.Doc()
		if format == "smithy-files" && len(d.Shapes) > 1 {
			k := g.Range(1, len(d.Shapes)-1)
			a, b := base+"_a.smithy", base+"_b.json"
			write(dir, a, idlHeader+d.Text(d.Shapes[:k], true))
			write(dir, b, d.Text(d.Shapes[k:], true))
			return input{"smithy", []string{a, b}}
		}
		if format == "smithy-text" {
			write(dir, base+".smithy", idlHeader+d.Text(d.Shapes, true))
			return input{"smithy", []string{base + ".smithy"}}
		}
		write(dir, base+".json", d.Text(d.Shapes, true))
		return input{"smithy", []string{base + ".json"}}
	}
	panic(format)
}

// load is the import by the library.
func load(in input, conf *sadl.Data) (*sadl.Model, error) {
	if len(in.Names) != 1 && in.Type != "smithy" {
		return nil, fmt.Errorf("several files")
	}
	switch in.Type {
	case "sadl":
		if strings.HasSuffix(in.Names[0], ".json") {
			return sadl.LoadModel(in.Names[0])
		}
		return sadl.ParseSadlFile(in.Names[0], conf)
	case "openapi":
		return openapi.Import(in.Names, conf)
	case "swagger":
		return openapi.ImportSwagger(in.Names, conf)
	case "graphql":
		return graphql.Import(in.Names, conf)
	}
	return smithy.Import(in.Names, conf)
}

// export is the export by the library.
func export(m *sadl.Model, generator, dir string, conf *sadl.Data) error {
	switch generator {
	case "json", "sadl-ast":
		fmt.Println(sadl.Pretty(m))
	case "", "sadl":
		fmt.Println(sadl.DecompileSadl(m))
	case "smithy", "smithy-ast":
		return smithy.Export(m, dir, conf, generator == "smithy-ast")
	case "openapi":
		return openapi.Export(m, conf)
	case "graphql":
		return graphql.Export(m, conf)
	case "http-trace":
		return httptrace.Export(m, conf)
	case "nonsense":
		return fmt.Errorf("no such generator")
	default:
		lang, part, _ := strings.Cut(generator, "-")
		if part == "server" || part == "client" {
			conf.Put(part, true)
		}
		if lang == "go" {
			return golang.Export(m, dir, conf)
		}
		return java.Export(m, dir, conf)
	}
	return nil
}

func section(generator string) string {
	switch generator {
	case "":
		return "sadl"
	case "smithy-ast":
		return "smithy"
	case "sadl-ast", "http-trace":
		return generator
	}
	lang, _, _ := strings.Cut(generator, "-")
	return lang
}

type kv struct {
	k string
	v interface{}
}

// options draws options of a generator; text: as given with -x.
func options(g *mon.Rand, sec string, text bool) (l []kv) {
	b := func(names ...string) {
		for _, n := range names {
			switch g.Intn(5) {
			case 0:
				l = append(l, kv{n, true})
			case 1:
				if text {
					l = append(l, kv{n, g.Pick("true", "false")})
				} else {
					l = append(l, kv{n, false})
				}
			}
		}
	}
	s := func(n string, vs ...string) {
		if g.P(30) {
			l = append(l, kv{n, g.PickS(vs)})
		}
	}
	switch sec {
	case "go":
		b("server", "client", "runtime")
		s("header", "// a = b", "// x", "// a==b=")
	case "java":
		b("server", "client", "immutable", "instants", "maven", "json", "service-exception", "example-implementation", "getters")
		s("header", "// a = b", "// x", "// a==b=")
		s("source", "src", "src/main/java", "a=b")
		s("domain", "acme.com", "x.y")
	case "smithy":
		b("useInputOutput")
		s("namespace", "given.ns", "x")
	case "graphql":
		if !text && g.Bool() {
			l = append(l, kv{"custom-scalars", map[string]interface{}{"Int64": "Long", "UUID": "Uuid"}})
		}
	}
	if g.P(10) {
		l = append(l, kv{"name", g.Pick("other", "Thing")})
	}
	if g.P(10) {
		l = append(l, kv{"unknown", g.Pick("", "x", "=")})
	}
	for i := len(l) - 1; i > 0; i-- {
		j := g.Intn(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return
}

var date = regexp.MustCompile(`(?m)^(< )?Date: .*$`)

type outcome struct {
	status      int
	out, errOut string
	crash       bool
}

func run(cwd, home string, full bool, args []string) outcome {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("SADL_CLI"), args...)
	cmd.Dir = cwd
	cmd.Env = []string{"HOME=" + home, "PATH=" + home, "TMPDIR=" + cwd}
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			mon.Bug("%v", err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	err := cmd.Run()
	o := outcome{out: ob.String(), errOut: eb.String()}
	var xe *exec.ExitError
	switch {
	case errors.As(err, &xe):
		o.status = xe.ExitCode()
	case err != nil:
		mon.Bug("%v", err)
	}
	o.crash = o.status < 0 || strings.Contains(o.errOut, "goroutine ") || strings.HasPrefix(o.errOut, "panic: ") || strings.Contains(o.errOut, "fatal error: ")
	return o
}

func tree(dir string) map[string]string {
	t := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		b, _ := os.ReadFile(p)
		rel, _ := filepath.Rel(dir, p)
		t[rel] = string(b)
		return nil
	})
	return t
}

func diff(a, b map[string]string) string {
	var l []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			l = append(l, k+" is missing")
		} else if v != w {
			l = append(l, k+" differs\n"+src.Diff(v, w))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, k+" is too much")
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func one(r *mon.Run, g *mon.Rand, i int) {
	dir := r.Scratch()
	for _, d := range []string{"w", "home", "lib"} {
		if err := os.RemoveAll(filepath.Join(dir, d)); err != nil {
			mon.Bug("%v", err)
		}
		if err := os.MkdirAll(filepath.Join(dir, d), 0755); err != nil {
			mon.Bug("%v", err)
		}
	}
	homes := filepath.Join(dir, "home")
	w, home := filepath.Join(dir, "w"), filepath.Join(dir, "home")
	if err := os.Chdir(w); err != nil {
		mon.Bug("%v", err)
	}
	defer os.Chdir("/")
	generator := g.PickS(gens)
	var args []string
	if generator != "" {
		args = append(args, "-g", generator)
	}
	// import options
	iconf := sadl.NewData()
	give := func(flag, key string, pct int, vs ...string) {
		if g.P(pct) {
			v := g.PickS(vs)
			args = append(args, "-"+flag, v)
			iconf.Put(key, v)
		}
	}
	give("n", "name", 15, "given", "Other")
	give("ns", "namespace", 15, "given.ns", "x")
	give("b", "base", 10, "/base", "/v1/x")
	give("s", "service", 3, "Nothing", "x#y")
	// what there is to convert
	format := g.PickS(formats)
	sub := ""
	if g.P(30) {
		sub = g.Pick("in/", "in/deep/", "in.d/", ".in/", "in/.deep/", "api.json/", "in/v1.sadl/", "a b/")
	}
	isDir := false
	in := make_(g, format, w, sub)
	files := append([]string{}, in.Names...)
	if sub != "" && g.P(70) {
		r.Event("directory")
		files = []string{strings.SplitN(sub, "/", 2)[0]}
		isDir = true
		for _, junk := range []string{"README.md", "notes.txt", "other.json", "noext", "data.yaml", ".hidden"} {
			if g.P(20) {
				write(w, sub+junk, g.Pick("", "{}", "[1,2]", "not: anything", "{\"a\": 1", "hello\n"))
			}
		}
	}
	if g.P(15) { // files of another type, and a choice
		other := g.PickS(formats)
		in2 := make_(g, other, w, g.Pick("", sub)+"other_")
		if in2.Type != in.Type {
			if sub == "" || len(files) == len(in.Names) {
				if g.Bool() {
					files = append(files, in2.Names...)
				} else {
					files = append(append([]string{}, in2.Names...), files...)
				}
			} else {
				files = append(files, in2.Names...)
			}
			args = append(args, "-t", in.Type)
			iconf.Put("type", in.Type)
			r.Event("type given")
		} else {
			for _, n := range in2.Names {
				os.Remove(n)
			}
		}
	} else if g.P(5) {
		args = append(args, "-t", in.Type)
		iconf.Put("type", in.Type)
	}
	// configuration
	sec := section(generator)
	want := sadl.NewData()
	if k := g.Intn(10); k < 5 {
		conf := map[string]interface{}{}
		for _, s := range []string{"go", "java", "smithy", "graphql", "openapi", "sadl"} {
			if s == sec || g.P(30) {
				m := map[string]interface{}{}
				for _, o := range options(g, s, false) {
					m[o.k] = o.v
					if s == sec {
						want.Put(o.k, o.v)
					}
				}
				if len(m) > 0 || g.Bool() {
					conf[s] = m
				}
			}
		}
		switch {
		case k < 2:
			write(home, ".sadl-config.yaml", oas.YAML(conf, ""))
			r.Event("home config")
		case k < 3:
			write(w, "conf.yaml", oas.YAML(conf, ""))
			args = append(args, "-c", filepath.Join(w, "conf.yaml"))
			r.Event("config file")
		default:
			write(home, "conf.json", mon.JSON(conf))
			args = append(args, "-c", filepath.Join(home, "conf.json"))
			write(home, ".sadl-config.yaml", "go:\n  header: \"// from home\"\njava:\n  header: \"// from home\"\nsmithy:\n  namespace: from.home\n")
			r.Event("config file")
		}
	}
	if _, err := os.Stat(filepath.Join(home, ".sadl-config.yaml")); err != nil && g.P(10) {
		write(home, "file", "")
		homes = filepath.Join(home, g.Pick("file", "nothing", "file/x"))
		r.Event("no home")
	}
	force := g.P(30)
	want.Put("force-overwrite", force)
	if force {
		args = append(args, "-f")
	}
	for _, o := range options(g, sec, true) {
		want.Put(o.k, o.v)
		if o.v == true {
			args = append(args, "-x", o.k)
		} else {
			args = append(args, "-x", fmt.Sprintf("%s=%s", o.k, o.v))
		}
		r.Event("option")
	}
	code := strings.HasPrefix(generator, "go") || strings.HasPrefix(generator, "java")
	cwd, outArg := w, "out"
	if isDir && len(files) == 1 && g.P(30) { // the current directory
		cwd, outArg = filepath.Join(w, files[0]), "../out"
		files = []string{g.Pick(".", "./", "./.", "../"+files[0], "../"+files[0]+"/")}
		r.Event("current directory")
	} else if g.P(30) { // other ways to write a path
		for i, f := range files {
			forms := []string{"./" + f, filepath.Join(w, f), "../w/" + f, "..//w/./" + f}
			if fi, err := os.Stat(f); err == nil && fi.IsDir() {
				forms = append(forms, f+"/", f+"/.")
			}
			files[i] = g.PickS(forms)
		}
		r.Event("other path")
	}
	args = append(args, "-o", outArg)
	broken := ""
	if cwd == w && g.P(25) {
		homes = home
		broken = spoil(g, w, home, in, generator, &args, &files)
	}
	args = append(args, files...)
	key := strings.Join(args, " ")
	r.Note(key)
	before := tree(w)
	text := ""
	for _, n := range in.Names {
		text += before[n]
	}
	r.Observe(key+"\x00"+text, true)
	if broken != "" {
		o := run(w, homes, false, args)
		r.Event("failed as it should")
		r.Event("failure: " + broken)
		if o.crash {
			r.Failf("crash", "sadl %s (%s): status %d\n%s", key, broken, o.status, o.errOut)
		} else if o.status == 0 {
			r.Failf("accepted", "sadl %s ended with status 0 (%s)\n%s", key, broken, o.out)
		} else if strings.TrimSpace(o.out+o.errOut) == "" {
			r.Failf("silent", "sadl %s ended with status %d without a message (%s)", key, o.status, broken)
		}
		if d := diff(before, tree(w)); d != "" {
			r.Failf("files", "sadl %s (%s) failed and left files: %s", key, broken, d)
		}
		return
	}
	// what the library does
	lib := filepath.Join(dir, "lib", "out")
	var existing []string
	m, err := load(in, iconf)
	wantOut := ""
	prepared := map[string]string{}
	if err == nil {
		c, cerr := sadl.DataFromJsonString(mon.JSON(want))
		if cerr != nil {
			mon.Bug("%v", cerr)
		}
		if code && g.P(30) { // files that are there already
			mon.Capture(func() { err = export(m, generator, lib, c) })
			for f := range tree(lib) {
				existing = append(existing, f)
			}
			sort.Strings(existing)
			os.RemoveAll(lib)
			for _, f := range existing {
				if g.P(40) {
					prepared[f] = "something else " + f
				}
			}
			for f, t := range prepared {
				r.Event("existing file")
				write(lib, f, t)
				write(filepath.Join(w, "out"), f, t)
			}
			if m, err = load(in, iconf); err != nil {
				mon.Bug("%v", err)
			}
			c, _ = sadl.DataFromJsonString(mon.JSON(want))
		}
		wantOut = mon.Capture(func() { err = export(m, generator, lib, c) })
	}
	if !code && err == nil && g.P(15) {
		o := run(cwd, homes, true, args)
		r.Event("full output")
		if wantOut != "" && o.status == 0 {
			r.Failf("full", "sadl %s > /dev/full ended with status 0", key)
		}
		if o.crash {
			r.Failf("crash", "sadl %s > /dev/full: status %d\n%s", key, o.status, o.errOut)
		}
		return
	}
	o := run(cwd, homes, false, args)
	if o.crash {
		r.Failf("crash", "sadl %s: status %d\n%s\n%s", key, o.status, o.errOut, text)
		return
	}
	if err != nil {
		r.Event("refused by the library")
		if o.status == 0 {
			r.Failf("accepted", "sadl %s ended with status 0, the library reports %v\n%s\n%s", key, err, o.out, text)
		} else if strings.TrimSpace(o.out+o.errOut) == "" {
			r.Failf("silent", "sadl %s ended with status %d without a message", key, o.status)
		}
		return
	}
	r.Event("converted")
	r.Event("from " + format)
	r.Event("to " + generator)
	if o.status != 0 {
		r.Failf("status", "sadl %s ended with status %d\n%s%s\n%s", key, o.status, o.out, o.errOut, text)
		return
	}
	a, b := date.ReplaceAllString(wantOut, "${1}Date: now"), date.ReplaceAllString(o.out, "${1}Date: now")
	a = strings.ReplaceAll(a, lib, outArg)
	if a != b {
		r.Failf("output", "sadl %s prints something else than the library\n%s\noptions %s\n%s", key, src.Diff(a, b), mon.JSON(want), text)
	}
	after := tree(w)
	wantTree := map[string]string{}
	for f, t := range before {
		wantTree[f] = t
	}
	for f, t := range tree(lib) {
		wantTree[filepath.Join("out", f)] = t
		r.Event("output directory")
	}
	if d := diff(wantTree, after); d != "" {
		r.Failf("files", "sadl %s leaves other files than the library\n%s\noptions %s\n%s", key, d, mon.JSON(want), text)
	}
}

// asks runs the tool without input: -v, -h, nothing at all
func asks(r *mon.Run, g *mon.Rand) {
	dir := r.Scratch()
	before := tree(dir)
	args := [][]string{{"-v"}, {}, {"-v", "nothing.sadl"}, {"-g", "openapi"}, {"-h"}}[g.Intn(5)]
	o := run(dir, dir, false, args)
	key := strings.Join(args, " ")
	r.Note(key)
	r.Observe("asks "+key, true)
	r.Event("question")
	switch {
	case o.crash:
		r.Failf("crash", "sadl %s: status %d\n%s", key, o.status, o.errOut)
	case len(args) > 0 && args[0] == "-v":
		if o.status != 0 || !strings.Contains(o.out, sadl.Version) {
			r.Failf("version", "sadl %s does not tell the version: status %d %q %q", key, o.status, o.out, o.errOut)
		}
	case strings.TrimSpace(o.out+o.errOut) == "":
		r.Failf("silent", "sadl %s prints nothing", key)
	}
	if d := diff(before, tree(dir)); d != "" {
		r.Failf("files", "sadl %s changed files: %s", key, d)
	}
}

// spoil makes the command fail, and says how.
func spoil(g *mon.Rand, w, home string, in input, generator string, args, files *[]string) string {
	code := strings.HasPrefix(generator, "go") || strings.HasPrefix(generator, "java")
	first := in.Names[0]
	typed := strings.Contains(" "+strings.Join(*args, " ")+" ", " -t ")
	for {
		switch g.Intn(12) {
		case 0:
			os.Remove(first)
			*files = in.Names
			return "missing file"
		case 1:
			if typed { // a missing file of another type is no concern
				*files = append(*files, "nodir")
			} else {
				*files = append(*files, g.Pick("nothing.sadl", "nothing.json", "nothing.smithy", "nodir", "nodir/x.yaml"))
			}
			return "a missing file beside others"
		case 2:
			if typed {
				continue
			}
			other := map[string]string{"sadl": "other.graphql", "graphql": "other.sadl"}[in.Type]
			if other == "" {
				other = g.Pick("other.sadl", "other.graphql")
			}
			write(w, other, "type Foo Struct { a String }\n")
			*files = append(*files, other)
			return "two types of files"
		case 3:
			f := g.Pick("broken.json", "broken.yaml", "notes.txt", "noext")
			write(w, f, g.Pick("{\"sadl\": ", "{", "[}", "a: b: c"))
			*files = append(*files, f)
			return "a file of no known format beside others"
		case 4:
			if in.Type == "smithy" {
				continue
			}
			b, _ := os.ReadFile(first)
			f := "second" + filepath.Ext(first)
			write(w, f, string(b))
			*files = append(*files, f)
			return "several files"
		case 5:
			f := g.Pick("bad.yaml", "bad.json")
			write(home, f, g.Pick("a: [", "{\"a\": ", "- x\n- y\n", "\"text\""))
			*args = append(*args, "-c", filepath.Join(home, f))
			return "damaged configuration"
		case 6:
			*args = append(*args, "-c", filepath.Join(home, g.Pick("nothing.yaml", "nothing.json", "no/thing.yaml", ".")))
			return "no configuration"
		case 7:
			if strings.Contains(strings.Join(*args, " "), "-c ") {
				continue
			}
			write(home, ".sadl-config.yaml", "a: [")
			return "damaged configuration in the home directory"
		case 8:
			*args = append(*args, "-g", g.Pick("nonsense", "", "Java", "go-", "openapi3"))
			return "unknown generator"
		case 9:
			if !code {
				continue
			}
			write(w, "blocked", "x")
			*args = append(*args, "-o", g.Pick("blocked", "blocked/out"))
			return "output directory is a file"
		case 10:
			write(w, first, g.Pick("{", "type", "type Foo Struct {", "\"", "{\"sadl\": 1}", "}"))
			*files = in.Names
			return "damaged file"
		case 11:
			*args = append(*args, g.Pick("-nonsense", "-x", "-f=maybe"))
			if (*args)[len(*args)-1] == "-x" {
				*files = nil
			}
			return "wrong arguments"
		}
	}
}
