// mutate lists small changes of Go files: one JSON object per line with file, start, end, text and kind.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File       string `json:"file"`
	Start, End int
	Text, Kind string
	Line       int
	Old        string
}

func main() {
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		seen := map[string]bool{}
		emit := func(a, b token.Pos, text, kind string) {
			m := mut{File: file, Start: off(a), End: off(b), Text: text, Kind: kind, Line: fs.Position(a).Line, Old: string(src[off(a):off(b)])}
			k := fmt.Sprint(m.Start, m.End, m.Text)
			if seen[k] {
				return
			}
			seen[k] = true
			j, _ := json.Marshal(m)
			fmt.Println(string(j))
		}
		text := func(n ast.Node) string {
			var sb strings.Builder
			_ = printer.Fprint(&sb, fs, n)
			return sb.String()
		}
		isLog := func(s string) bool { return strings.HasPrefix(s, "log.") || strings.HasPrefix(s, "fmt.Print") }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			var inspect func(n ast.Node) bool
			inspect = func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CallExpr:
					if isLog(text(x.Fun)) {
						return false
					}
				case *ast.IfStmt:
					c := text(x.Cond)
					errCheck := c == "err != nil"
					if errCheck && x.Init == nil {
						emit(x.Cond.Pos(), x.Cond.End(), "err != nil && false", "ignore error")
					} else {
						emit(x.Cond.Pos(), x.Cond.End(), "false && ("+c+")", "if false")
						emit(x.Cond.Pos(), x.Cond.End(), "true || ("+c+")", "if true")
					}
				case *ast.BinaryExpr:
					sw := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.SHR: {"<<"}}
					if t := text(x); t == "err != nil" || t == "err == nil" {
						return true
					}
					for _, o := range sw[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "operator")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), "left only")
						emit(x.Pos(), x.End(), text(x.Y), "right only")
					}
				case *ast.ReturnStmt:
					if n := len(x.Results); n > 0 && text(x.Results[n-1]) == "err" {
						l := x.Results[n-1]
						emit(l.Pos(), l.End(), "nil", "drop error")
					}
					if len(x.Results) == 1 {
						if t := text(x.Results[0]); t == "true" {
							emit(x.Results[0].Pos(), x.Results[0].End(), "false", "return")
						} else if t == "false" {
							emit(x.Results[0].Pos(), x.Results[0].End(), "true", "return")
						}
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						emit(x.Pos(), x.End(), x.Value+" + 1", "constant")
						emit(x.Pos(), x.End(), x.Value+" - 1", "constant")
					}
					if x.Kind == token.STRING && len(x.Value) > 2 && len(x.Value) < 20 && !strings.Contains(x.Value, " ") {
						emit(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"X"+x.Value[len(x.Value)-1:], "string")
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "boolean")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "boolean")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.Pos(), x.End(), text(x.X), "no not")
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "continue", "break")
						emit(x.Pos(), x.End(), "", "no break")
					} else if x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break", "continue")
						emit(x.Pos(), x.End(), "", "no continue")
					}
				case *ast.ExprStmt:
					t := text(x)
					if isLog(t) {
						return false
					}
					emit(x.Pos(), x.End(), "", "delete call")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						var l []string
						for range x.Rhs {
							l = append(l, "_")
						}
						if len(x.Rhs) == len(x.Lhs) {
							emit(x.Pos(), x.Rhs[0].Pos(), strings.Join(l, ", ")+" = ", "delete assignment")
						}
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "delete")
				case *ast.SliceExpr:
					emit(x.Pos(), x.End(), text(x.X), "whole slice")
				case *ast.RangeStmt:
					emit(x.Body.Lbrace+1, x.Body.Lbrace+1, " if true { break }; ", "empty loop")
				case *ast.CaseClause:
					for i, e := range x.List {
						if len(x.List) > 1 {
							var r []string
							for j, o := range x.List {
								if j != i {
									r = append(r, text(o))
								}
							}
							_ = e
							emit(x.List[0].Pos(), x.List[len(x.List)-1].End(), strings.Join(r, ", "), "case")
						}
					}
				}
				return true
			}
			ast.Inspect(fd.Body, inspect)
		}
	}
}
