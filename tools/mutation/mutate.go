// mutate FILE...: lists single changes of Go source files as JSON lines {file, line, off, end, new, kind, old}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type M struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Col  int    `json:"col"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Old  string `json:"old"`
}

var swap = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
}

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		pos := func(p token.Pos) int { return fset.Position(p).Offset }
		out := func(p, e token.Pos, n, kind string) {
			m := M{f, fset.Position(p).Line, fset.Position(p).Column, pos(p), pos(e), n, kind, string(src[pos(p):pos(e)])}
			b, _ := json.Marshal(m)
			fmt.Println(string(b))
		}
		text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				out(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate")
				out(x.Cond.Pos(), x.Cond.End(), "false && ("+c+")", "never")
				out(x.Cond.Pos(), x.Cond.End(), "true || ("+c+")", "always")
			case *ast.IncDecStmt:
				s := "--"
				if x.Tok == token.DEC {
					s = "++"
				}
				out(x.TokPos, x.TokPos+2, s, "incdec")
				out(x.Pos(), x.End(), "", "delete")
			case *ast.AssignStmt:
				switch x.Tok {
				case token.ASSIGN:
					if len(x.Lhs) == 1 {
						out(x.Pos(), x.End(), "_ = "+text(x.Rhs[0]), "noassign")
					}
				case token.ADD_ASSIGN:
					out(x.TokPos, x.TokPos+2, "-=", "op")
					out(x.TokPos, x.TokPos+2, "=", "op")
				case token.SUB_ASSIGN:
					out(x.TokPos, x.TokPos+2, "+=", "op")
				case token.MUL_ASSIGN:
					out(x.TokPos, x.TokPos+2, "/=", "op")
				case token.QUO_ASSIGN:
					out(x.TokPos, x.TokPos+2, "*=", "op")
				}
			case *ast.ExprStmt:
				out(x.Pos(), x.End(), "", "delete")
			case *ast.DeferStmt:
				out(x.Pos(), x.End(), "", "delete")
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.BREAK {
					out(x.Pos(), x.End(), "continue", "branch")
				} else if x.Label == nil && x.Tok == token.CONTINUE {
					out(x.Pos(), x.End(), "break", "branch")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						out(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), "const")
						if v > 0 {
							out(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), "const")
						}
					}
				case token.FLOAT:
					if v, err := strconv.ParseFloat(x.Value, 64); err == nil {
						if v == 0 {
							out(x.Pos(), x.End(), "1.0", "const")
						} else {
							out(x.Pos(), x.End(), strconv.FormatFloat(v*1.01, 'f', -1, 64)+"0", "const")
						}
					}
				case token.STRING:
					if v, err := strconv.Unquote(x.Value); err == nil && len(v) > 0 {
						if strings.Contains(v, "%") {
							for _, p := range []string{"%0.2f", "%.2f", "%0.3f", "%.3f"} {
								if strings.Contains(v, p) {
									out(x.Pos(), x.End(), strings.Replace(x.Value, p, "%0.0f", 1), "format")
								}
							}
						}
						out(x.Pos(), x.End(), `""`, "string")
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "true":
							out(r.Pos(), r.End(), "false", "bool")
						case "false":
							out(r.Pos(), r.End(), "true", "bool")
						case "err":
							out(r.Pos(), r.End(), "nil", "noerr")
						}
					}
				}
			case *ast.CaseClause:
				if len(x.List) > 1 {
					out(x.List[0].Pos(), x.List[1].Pos(), "", "case")
				}
			}
			return true
		})
	}
}
