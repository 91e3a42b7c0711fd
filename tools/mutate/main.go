// mutate lists small changes to a Go file: one JSON object per line with the
// byte range to replace. It is a development aid; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File       string
	Line       int
	From, To   int
	New        string
	Op         string
	Fn         string
}

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(n ast.Node, new, op string) {
			b, _ := json.Marshal(mut{f, fs.Position(n.Pos()).Line, off(n.Pos()), off(n.End()), new, op, fn})
			fmt.Println(string(b))
		}
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			if fd.Recv != nil {
				fn = text(fd.Recv.List[0].Type) + "." + fn
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					emit(x.Cond, "!("+text(x.Cond)+")", "negate")
					emit(x.Cond, "true || ("+text(x.Cond)+")", "always")
					emit(x.Cond, "false && ("+text(x.Cond)+")", "never")
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}[x.Op]
					for _, o := range alt {
						emit(x, text(x.X)+" "+o+" "+text(x.Y), "op "+x.Op.String()+" "+o)
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						v, err := strconv.Atoi(x.Value)
						if err == nil {
							emit(x, strconv.Itoa(v+1), "int+1")
							if v > 0 {
								emit(x, strconv.Itoa(v-1), "int-1")
							}
						}
					case token.STRING:
						s, err := strconv.Unquote(x.Value)
						if err == nil && len(s) > 0 {
							emit(x, strconv.Quote(s[:len(s)-1]), "str cut")
							emit(x, strconv.Quote(s+" "), "str more")
						}
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if t := text(r); t == "err" {
							emit(r, "nil", "err to nil")
						} else if t == "nil" && len(x.Results) == 1 {
						} else if t == "true" {
							emit(r, "false", "true to false")
						} else if t == "false" {
							emit(r, "true", "false to true")
						}
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								emit(s, "", "del assign")
							}
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.DeferStmt:
							emit(s, "", "del stmt")
						case *ast.BranchStmt:
							emit(s, "", "del branch")
						case *ast.ForStmt:
							emit(s, "", "del loop")
						}
					}
				case *ast.CaseClause:
					for _, s := range x.Body {
						switch y := s.(type) {
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								emit(s, "", "del assign")
							}
						case *ast.ExprStmt, *ast.IfStmt:
							emit(s, "", "del stmt")
						}
					}
					if len(x.List) > 1 {
						emit(x.List[0], text(x.List[1]), "case drop")
					}
				case *ast.CallExpr:
					if len(x.Args) == 1 && text(x.Fun) == "append" {
					}
				}
				return true
			})
		}
	}
}
