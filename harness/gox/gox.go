// Package gox compiles, type-checks and runs Go code generated by the code under observation.
package gox

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"verif/mon"
)

func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Checker type-checks generated sources against the compiled standard library (and the sadl runtime).
type Checker struct {
	exports map[string]string
}

var baseImports = []string{"bytes", "bufio", "encoding/json", "errors", "fmt", "io", "io/ioutil", "log", "math/big", "net/http", "net/url", "os", "sort", "strconv", "strings", "time", "context",
	"github.com/boynton/sadl"}

func NewChecker(extra ...string) *Checker {
	return newChecker(filepath.Join(VerifDir(), "harness"), extra)
}

// NewServerChecker also knows the packages servers and clients import; it needs an empty directory.
func NewServerChecker(dir string) *Checker {
	NewModule(dir)
	return newChecker(dir, []string{"github.com/gorilla/mux", "github.com/gorilla/handlers"})
}

func newChecker(dir string, extra []string) *Checker {
	c := &Checker{exports: map[string]string{}}
	h := filepath.Join(VerifDir(), "harness")
	args := append([]string{"list", "-export", "-deps", "-overlay", filepath.Join(h, "noparser.json"), "-f", "{{.ImportPath}}\t{{.Export}}"}, baseImports...)
	cmd := exec.Command("go", append(args, extra...)...)
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		mon.Bug("go list: %v\n%s", err, errb.String())
	}
	for _, l := range strings.Split(out.String(), "\n") {
		if p, f, ok := strings.Cut(l, "\t"); ok && f != "" {
			c.exports[p] = f
		}
	}
	return c
}

// Check parses and type-checks the sources as one package.
func (c *Checker) Check(srcs map[string]string) (*types.Package, []*ast.File, error) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for n := range srcs {
		names = append(names, n)
	}
	sort.Strings(names)
	pkg := ""
	for _, n := range names {
		f, err := parser.ParseFile(fset, n, srcs[n], parser.ParseComments)
		if err != nil {
			return nil, nil, fmt.Errorf("does not parse: %v", err)
		}
		if pkg != "" && f.Name.Name != pkg {
			return nil, nil, fmt.Errorf("packages %s and %s in one directory", pkg, f.Name.Name)
		}
		pkg = f.Name.Name
		files = append(files, f)
	}
	var errs []string
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := c.exports[path]
		if !ok {
			return nil, fmt.Errorf("no such package %s", path)
		}
		return os.Open(f)
	}), Error: func(err error) {
		if len(errs) < 5 {
			errs = append(errs, err.Error())
		}
	}}
	p, _ := conf.Check("gen/"+pkg, fset, files, nil)
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("does not compile:\n%s", strings.Join(errs, "\n"))
	}
	return p, files, nil
}

// Module is a scratch module for code to be compiled and run.
type Module struct {
	Dir  string
	Race bool // build with the race detector
}

func NewModule(dir string) *Module {
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0755); err != nil {
		mon.Bug("%v", err)
	}
	h := filepath.Join(VerifDir(), "harness")
	mod, err := os.ReadFile(filepath.Join(h, "go.mod"))
	if err != nil {
		mon.Bug("%v", err)
	}
	sum, err := os.ReadFile(filepath.Join(h, "go.sum"))
	if err != nil {
		mon.Bug("%v", err)
	}
	text := strings.Replace(string(mod), "module verif", "module gen", 1)
	text = strings.ReplaceAll(text, "=> ../shim", "=> "+filepath.Join(VerifDir(), "shim"))
	for _, n := range []string{"mux", "handlers"} {
		text += "\nrequire github.com/gorilla/" + n + " v1.0.0\n\nreplace github.com/gorilla/" + n + " => " + filepath.Join(VerifDir(), "shim", "gorilla-"+n) + "\n"
	}
	m := &Module{Dir: dir}
	m.Write("go.mod", text)
	m.Write("go.sum", string(sum))
	return m
}

func (m *Module) Write(name, text string) {
	p := filepath.Join(m.Dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		mon.Bug("%v", err)
	}
	if err := os.WriteFile(p, []byte(text), 0644); err != nil {
		mon.Bug("%v", err)
	}
}

// Build compiles package pkg to a binary; the error is the compiler's output.
func (m *Module) Build(pkg, bin string) error {
	args := []string{"build", "-overlay", filepath.Join(VerifDir(), "harness", "noparser.json"), "-ldflags=-s -w", "-o", bin}
	if m.Race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, pkg)...)
	if m.Race {
		cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	}
	cmd.Dir = m.Dir
	var errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &errb, &errb
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("%v\n%s", err, errb.String())
	}
	return nil
}

// Exec runs the binary with in (as JSON) on its standard input and decodes its standard output into out.
func (m *Module) Exec(bin string, in, out interface{}) error {
	b, err := json.Marshal(in)
	if err != nil {
		mon.Bug("%v", err)
	}
	cmd := exec.Command(bin)
	cmd.Dir = m.Dir
	cmd.Stdin = bytes.NewReader(b)
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("%v\n%s", err, eb.String())
	}
	d := json.NewDecoder(&ob)
	d.UseNumber()
	if err := d.Decode(out); err != nil {
		return fmt.Errorf("output: %v\n%s", err, eb.String())
	}
	return nil
}
