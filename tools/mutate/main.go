// mutate lists first-order mutants of Go files: one JSON object per line with
// file, byte range, replacement and description. (Development aid for
// measuring the checks; no check uses it.)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	New  string `json:"new"`
	Desc string `json:"desc"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(a, b token.Pos, n, d string) {
			enc.Encode(mut{fn, fs.Position(a).Line, off(a), off(b), n, d})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		del := func(s ast.Stmt) {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt:
				put(s.Pos(), s.End(), "", "delete: "+text(s))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					put(s.Pos(), s.End(), "", "delete: "+text(s))
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					put(s.Pos(), s.End(), "", "delete: return")
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.Field:
				return false
			case *ast.BlockStmt:
				for _, s := range x.List {
					del(s)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					del(s)
				}
			case *ast.CommClause:
				for _, s := range x.Body {
					del(s)
				}
			case *ast.IfStmt:
				put(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate: "+text(x.Cond))
				put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never: "+text(x.Cond))
				put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always: "+text(x.Cond))
			case *ast.BinaryExpr:
				alts := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"}}[x.Op]
				for _, a := range alts {
					put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, fmt.Sprintf("%s -> %s in %s", x.Op, a, text(x)))
				}
			case *ast.AssignStmt:
				if x.Tok == token.ADD_ASSIGN {
					put(x.TokPos, x.TokPos+2, "-=", "+= -> -= in "+text(x))
					put(x.TokPos, x.TokPos+2, "=", "+= -> = in "+text(x))
				}
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					put(x.TokPos, x.TokPos+2, "--", "++ -> -- in "+text(x))
					put(x.TokPos, x.TokPos+2, "+= 2", "++ -> +=2 in "+text(x))
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						put(x.Pos(), x.End(), fmt.Sprint(v+1), fmt.Sprintf("%d -> %d", v, v+1))
						if v > 0 {
							put(x.Pos(), x.End(), fmt.Sprint(v-1), fmt.Sprintf("%d -> %d", v, v-1))
						}
					}
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil {
						put(x.Pos(), x.End(), strconv.Quote(s+"x"), "string "+x.Value+"+x")
						if s != "" {
							put(x.Pos(), x.End(), `""`, "string "+x.Value+" -> empty")
						}
					}
				case token.CHAR:
					put(x.Pos(), x.End(), "'z'", "char "+x.Value+" -> z")
				}
			case *ast.CallExpr:
				// swap two adjacent arguments of the same shape
				for i := 0; i+1 < len(x.Args); i++ {
					_, a := x.Args[i].(*ast.Ident)
					_, b := x.Args[i+1].(*ast.Ident)
					if a && b {
						put(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]), "swap args in "+text(x))
					}
				}
			}
			return true
		})
	}
}
