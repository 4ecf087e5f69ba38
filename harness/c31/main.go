// C31: an imported model is a model like any other, to every generator.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/graphql"
	"github.com/boynton/sadl/httptrace"
	"github.com/boynton/sadl/java"
	"github.com/boynton/sadl/openapi"
	"github.com/boynton/sadl/smithy"

	"verif/gen"
	"verif/gox"
	"verif/gql"
	"verif/imp"
	"verif/jx"
	"verif/mon"
	"verif/oas"
	"verif/ref"
	"verif/smi"
)

func main() {
	mon.Main(mon.Spec{Prop: "C31",
		Rule:        "random OpenAPI, Swagger, GraphQL and Smithy documents are imported and each model is given to every generator; the OpenAPI, GraphQL and Smithy that come out are compared with the ones an independent specification derives from the model and have no reference to what is not there, the Go is type-checked and its declarations compared with the model, the Java is compiled, of both with the server, the client or both too, and the model is the same before and after each export; a generator may refuse a model but not crash; non-trivial = distinct document with at least two definitions",
		Assumptions: []string{"the graphql-go parser reads GraphQL correctly", "go/types and javac accept exactly valid programs", "the tokenizer stand-in is not involved"},
		MinEvents: map[string]int{"openapi to openapi": 200, "openapi to smithy": 140, "openapi to graphql": 60, "openapi to go": 80, "openapi to java": 140, "openapi to httptrace": 300,
			"swagger to go service": 5, "smithy to go service": 5,
			"openapi to java service": 5, "swagger to java service": 5, "smithy to java service": 5,
			"swagger to openapi": 200, "swagger to smithy": 140, "swagger to graphql": 80, "swagger to go": 80, "swagger to java": 200, "swagger to httptrace": 300,
			"graphql to openapi": 300, "graphql to smithy": 300, "graphql to graphql": 300, "graphql to go": 200, "graphql to java": 300, "graphql to httptrace": 300,
			"smithy to openapi": 160, "smithy to smithy": 300, "smithy to graphql": 80, "smithy to go": 140, "smithy to java": 200, "smithy to httptrace": 300}},
		func(r *mon.Run) {
			c := gox.NewServerChecker(r.Scratch())
			var j *jx.JVM
			r.Cases("convert", r.Scale(2000, 30000), func(i int, g *mon.Rand) {
				if j == nil {
					j = jx.Start()
				}
				one(r, c, j, g, i)
			})
			if j != nil {
				j.Stop()
			}
		})
}

// clash tells whether names that differ in the model meet in Go, where the
// symbols of enums and the names of types share a scope, and an exception has
// a method Error.
func clash(m *sadl.Model) bool {
	seen := map[string]bool{}
	dup := func(n string) bool {
		was := seen[n]
		seen[n] = true
		return was
	}
	exc := map[string]bool{}
	for _, h := range m.Http {
		for _, x := range h.Exceptions {
			exc[x.Type] = true
		}
	}
	for _, o := range m.Operations {
		for _, x := range o.Exceptions {
			exc[x] = true
		}
	}
	bad := false
	for _, td := range m.Types {
		bad = dup(td.Name) || bad
		for _, el := range td.Elements {
			bad = dup(el.Symbol) || bad
		}
		for _, f := range td.Fields {
			bad = bad || exc[td.Name] && strings.EqualFold(f.Name, "error")
		}
		for _, v := range td.Variants {
			bad = bad || exc[td.Name] && strings.EqualFold(v.Name, "error")
		}
	}
	return bad
}

// answered tells whether every action has an expected response.
func answered(m *sadl.Model) bool {
	for _, h := range m.Http {
		if h.Expected == nil {
			return false
		}
	}
	return true
}

func one(r *mon.Run, c *gox.Checker, j *jx.JVM, g *mon.Rand, i int) {
	kind := imp.Kinds[i%len(imp.Kinds)]
	dir := r.Scratch()
	m, text, err := imp.Import(g, dir, kind, true, sadl.NewData())
	r.Note(text)
	if err != nil {
		r.Failf("import", "%s: a valid document was rejected: %v\n%s", kind, err, text)
		return
	}
	r.Observe(text, len(m.Types)+len(m.Http) > 1)
	if open := ref.Open(&m.Schema); len(open) > 0 {
		r.Failf("open", "%s: %v", kind, open)
		return
	}
	if m.Name == "" {
		m.Name = "nameless" // a Smithy model may have no service to name it
	}
	before := mon.JSON(m.Schema)
	run := func(how string, f func() error) bool {
		var err error
		if p := mon.Try(func() { err = f() }); p != "" {
			r.Failf("crash-"+how, "%s to %s: crashed: %s\nmodel %s\ndocument %s", kind, how, p, before, text)
			return false
		}
		if after := mon.JSON(m.Schema); after != before {
			r.Failf("changed-"+how, "%s to %s: the model was changed\n%s\n%s", kind, how, before, after)
		}
		if err != nil {
			r.Event(fmt.Sprintf("%s to %s: refused", kind, how))
			return false
		}
		r.Event(kind + " to " + how)
		return true
	}
	fail := func(how, format string, args ...interface{}) {
		r.Failf(how, "%s to %s: %s\nmodel %s\ndocument %s", kind, how, fmt.Sprintf(format, args...), before, text)
	}
	conf := sadl.NewData()
	var doc interface{}
	if run("openapi", func() error {
		d, err := openapi.NewGenerator(m, conf).ExportToOAS3()
		doc = d
		return err
	}) {
		var got interface{}
		json.Unmarshal([]byte(sadl.Pretty(doc)), &got)
		if answered(m) {
			want := oas.Norm(oas.New(&m.Schema).Doc())
			var diffs []string
			oas.Diff("", want, got, map[string]bool{"required": true}, &diffs)
			sort.Strings(diffs)
			if len(diffs) > 0 {
				fail("openapi", "%s", strings.Join(diffs, "\n"))
			}
		}
		refs := map[string]bool{}
		oas.Refs(got, refs)
		comps, _ := got.(map[string]interface{})["components"].(map[string]interface{})["schemas"].(map[string]interface{})
		for ref := range refs {
			n := strings.TrimPrefix(ref, "#/components/schemas/")
			if _, ok := comps[n]; !ok {
				fail("openapi", "dangling %s", ref)
			}
		}
	}
	text2 := ""
	if run("graphql", func() error { text2, err = graphql.FromSadl(m, conf); return err }) {
		if diff := gql.Compare(r, &m.Schema, nil, text2); diff != "" {
			fail("graphql", "%s\n%s", diff, text2)
		}
	}
	ns := m.Namespace
	if ns == "" {
		ns = "example"
	}
	d, want := smi.Expect(&m.Schema, ns, "Request", "Response")
	if run("smithy", func() error {
		text2 = mon.Capture(func() { err = smithy.Export(m, "", conf, true) })
		return err
	}) {
		if d.Err != nil {
			fail("smithy", "exported what Smithy cannot hold (%v)\n%s", d.Err, text2)
		} else if got, err := smi.Parse(text2); err != nil {
			fail("smithy", "the AST is not JSON: %v\n%s", err, text2)
		} else {
			if bad, _ := smi.Dangling(got); len(bad) > 0 {
				fail("smithy", "references %v resolve to nothing\n%s", bad, text2)
			}
			if diffs := smi.Compare(d, want, got); len(diffs) > 0 {
				fail("smithy", "the AST differs from the model:\n%s", strings.Join(diffs, "\n"))
			}
		}
	} else if d.Err == nil {
		fail("smithy", "refused: %v", err)
	}
	run("httptrace", func() error { mon.Capture(func() { err = httptrace.Export(m, conf) }); return err })
	gd := filepath.Join(dir, "go")
	if clash(m) {
		r.Event("names that Go would see twice")
	} else if run("go", func() error { return golang.Export(m, gd, conf) }) {
		srcs := map[string]string{}
		for _, f := range jx.Tree(gd) {
			b, _ := os.ReadFile(filepath.Join(gd, f))
			srcs[f] = string(b)
		}
		all := ""
		for _, t := range srcs {
			all += t
		}
		p, _, err := c.Check(srcs)
		if err != nil {
			fail("go", "%v\n%s", err, all)
		} else if answered(m) {
			a := &gox.GoAPI{V: &gox.Values{S: &m.Schema, G: gen.New(g, gen.Opts{})}, Service: sadl.Capitalize(m.Name)}
			if d := a.Compare(p); len(d) > 0 {
				fail("go", "%s\n%s", strings.Join(d, "\n"), all)
			}
		}
	}
	os.RemoveAll(gd)
	jconf, hows := conf, "java"
	if len(m.Http) > 0 && answered(m) && !clash(m) && (r.Thorough() || g.Intn(3) == 0) {
		sc := sadl.NewData()
		k := g.Intn(3)
		if k != 1 {
			sc.Put("server", true)
		}
		if k != 2 {
			sc.Put("client", true)
		}
		jconf, hows = sc, "java service"
		if run("go service", func() error { return golang.Export(m, gd, sc) }) {
			srcs := map[string]string{}
			all := ""
			for _, f := range jx.Tree(gd) {
				b, _ := os.ReadFile(filepath.Join(gd, f))
				srcs[f] = string(b)
				all += string(b)
			}
			if _, _, err := c.Check(srcs); err != nil {
				fail("go service", "%v\n%s", err, all)
			}
		}
		os.RemoveAll(gd)
	}
	jd := filepath.Join(dir, "java")
	if run(hows, func() error { return java.Export(m, jd, jconf) }) {
		if len(jx.Tree(jd)) == 0 {
			r.Event("no java")
		} else if a := j.Job(filepath.Join(jd, "src/main/java"), true, nil); a.Error != "" {
			fail(hows, "%s", a.Error)
		}
	}
	os.RemoveAll(jd)
}
