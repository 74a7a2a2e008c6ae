package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type edit struct {
	File       string
	Line       int
	From, To   int
	Old, New   string
	Kind, Func string
}

func main() {
	var out []edit
	fs, _ := filepath.Glob("/repo/*.go")
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, _ := os.ReadFile(f)
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		cur := ""
		add := func(kind string, a, b token.Pos, nw string) {
			out = append(out, edit{filepath.Base(f), fset.Position(a).Line, off(a), off(b), string(src[off(a):off(b)]), nw, kind, cur})
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			cur = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					m := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.OR: {"&"}, token.AND: {"|"}}
					for _, nw := range m[x.Op] {
						add("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), nw)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						add("left", x.Pos(), x.End(), string(src[off(x.X.Pos()):off(x.X.End())]))
						add("right", x.Pos(), x.End(), string(src[off(x.Y.Pos()):off(x.Y.End())]))
					}
				case *ast.IfStmt:
					add("iftrue", x.Cond.Pos(), x.Cond.End(), "("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+") || true")
					add("iffalse", x.Cond.Pos(), x.Cond.End(), "("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+") && false")
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						add("not", x.OpPos, x.OpPos+1, "")
					}
				case *ast.ExprStmt:
					add("del", x.Pos(), x.End(), "")
				case *ast.IncDecStmt:
					add("del", x.Pos(), x.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						add("del", x.Pos(), x.End(), "")
					}
				case *ast.DeferStmt:
					add("del", x.Pos(), x.End(), "")
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE && x.Label == nil {
						add("branch", x.Pos(), x.End(), "break")
					}
					if x.Tok == token.BREAK && x.Label == nil {
						add("branch", x.Pos(), x.End(), "continue")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok {
							if id.Name == "true" {
								add("ret", id.Pos(), id.End(), "false")
							} else if id.Name == "false" {
								add("ret", id.Pos(), id.End(), "true")
							} else if id.Name == "err" {
								add("ret", id.Pos(), id.End(), "nil")
							}
						}
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, _ := strconv.Atoi(x.Value)
						add("int", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							add("int", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						add("slice", x.Low.Pos(), x.Low.End(), "("+string(src[off(x.Low.Pos()):off(x.Low.End())])+")+1")
					}
					if x.High != nil {
						add("slice", x.High.Pos(), x.High.End(), "("+string(src[off(x.High.Pos()):off(x.High.End())])+")-1")
					}
				}
				return true
			})
		}
	}
	b, _ := json.Marshal(out)
	os.WriteFile("/tmp/mu/muts.json", b, 0644)
	k := map[string]int{}
	for _, e := range out {
		k[e.Kind]++
	}
	fmt.Println(len(out), k)
}
