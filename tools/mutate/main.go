// mutate lists or applies small source mutations of a Go file: used to measure which checks notice what.
//   mutate FILE          prints the number of mutations
//   mutate FILE N        rewrites FILE with mutation N and prints what it did
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
	desc     string
}

func main() {
	path := os.Args[1]
	src, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var es []edit
	add := func(from, to token.Pos, text, desc string) { es = append(es, edit{off(from), off(to), text, desc}) }
	tx := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT || n.Tok == token.TYPE {
				return false
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "!("+tx(n.Cond)+")", "negate condition")
			add(n.Cond.Pos(), n.Cond.End(), "false && ("+tx(n.Cond)+")", "never")
			if n.Else == nil {
				add(n.Cond.Pos(), n.Cond.End(), "true || ("+tx(n.Cond)+")", "always")
			}
		case *ast.BinaryExpr:
			alt := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
				token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}
			for _, a := range alt[n.Op] {
				es = append(es, edit{off(n.OpPos), off(n.OpPos) + len(n.Op.String()), a, n.Op.String() + " to " + a})
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n.Pos(), n.X.Pos(), "", "drop !")
			}
		case *ast.ExprStmt:
			add(n.Pos(), n.End(), "", "delete call")
		case *ast.IncDecStmt:
			add(n.Pos(), n.End(), "", "delete inc/dec")
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				l := ""
				for _, x := range n.Rhs {
					l += "_ = " + tx(x) + "; "
				}
				if len(n.Rhs) == len(n.Lhs) {
					add(n.Pos(), n.End(), strings.TrimSuffix(l, "; "), "drop assignment")
				}
			}
		case *ast.ReturnStmt:
			if k := len(n.Results); k > 0 {
				last := n.Results[k-1]
				t := tx(last)
				if t == "err" || strings.HasPrefix(t, "fmt.Errorf") {
					r := "nil"
					if t != "err" {
						r = "func(a ...interface{}) error { return nil }(" + t + ")"
					}
					add(last.Pos(), last.End(), r, "lose error")
				}
				if t == "nil" && k == 1 {
					add(n.Pos(), n.End(), "return fmt.Errorf(\"spurious\")", "spurious error")
				}
			}
		case *ast.BranchStmt:
			if n.Label == nil {
				add(n.Pos(), n.End(), "", "delete "+n.Tok.String())
			}
		case *ast.Ident:
			if n.Name == "true" {
				add(n.Pos(), n.End(), "false", "true to false")
			} else if n.Name == "false" {
				add(n.Pos(), n.End(), "true", "false to true")
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				add(n.Pos(), n.End(), "("+n.Value+" + 1)", "int + 1")
			case token.STRING:
				if n.Value[0] == '`' {
					lines := strings.Split(n.Value, "\n")
					for i := 1; i < len(lines)-1; i++ {
						if strings.TrimSpace(lines[i]) == "" {
							continue
						}
						l := append(append([]string{}, lines[:i]...), lines[i+1:]...)
						add(n.Pos(), n.End(), strings.Join(l, "\n"), "template line deleted: "+lines[i])
					}
				} else if v, err := strconv.Unquote(n.Value); err == nil && len(v) > 0 && len(v) < 40 {
					add(n.Pos(), n.End(), strconv.Quote(v[:len(v)-1]), "string shortened: "+n.Value)
				}
			}
		case *ast.CaseClause:
			if len(n.Body) > 0 && n.List != nil {
				if len(n.List) > 1 {
					add(n.List[len(n.List)-2].End(), n.List[len(n.List)-1].End(), "", "case "+tx(n.List[len(n.List)-1])+" dropped")
				}
			}
		}
		return true
	})
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	if len(os.Args) < 3 {
		fmt.Println(len(es))
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	e := es[k]
	line := 1 + strings.Count(string(src[:e.from]), "\n")
	old := string(src[e.from:e.to])
	if len(old) > 100 {
		old = old[:100]
	}
	fmt.Printf("%s:%d %s | %s\n", path, line, e.desc, strings.ReplaceAll(old, "\n", " "))
	out := string(src[:e.from]) + e.text + string(src[e.to:])
	if err := os.WriteFile(path, []byte(out), 0644); err != nil {
		panic(err)
	}
}
