// Mutator lists small syntactic changes of Go files as JSON lines: file, line,
// function, kind, and the byte range with its replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Kind string `json:"kind"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Old  string `json:"old"`
	New  string `json:"new"`
}

var swap = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		emit := func(from, to token.Pos, kind, repl string) {
			a, b := off(from), off(to)
			_ = enc.Encode(mutant{file, fset.Position(from).Line, fn, kind, a, b, string(src[a:b]), repl})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
					emit(s.Pos(), s.End(), "drop", "{}")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "drop", "{}")
					}
				case *ast.IfStmt:
					if x.Init == nil {
						emit(s.Pos(), s.End(), "drop if", "{}")
					}
				case *ast.ForStmt, *ast.RangeStmt:
					emit(s.Pos(), s.End(), "drop loop", "{}")
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				if gd, ok := d.(*ast.GenDecl); !ok || gd.Tok == token.IMPORT || gd.Tok == token.TYPE {
					continue
				}
				fn = "decl"
			} else {
				fn = fd.Name.Name
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					stmts(x.List)
				case *ast.CaseClause:
					stmts(x.Body)
				case *ast.CommClause:
					stmts(x.Body)
				case *ast.BinaryExpr:
					for _, r := range swap[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), "operator", r)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), "left only", text(x.X))
						emit(x.Pos(), x.End(), "right only", text(x.Y))
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "negate", "!("+text(x.Cond)+")")
					if x.Else != nil {
						emit(x.Body.End(), x.Else.End(), "drop else", "")
					}
				case *ast.ForStmt:
					if b, ok := x.Cond.(*ast.BinaryExpr); ok && b.Op == token.LSS {
						emit(b.Y.Pos(), b.Y.End(), "one less", "("+text(b.Y)+")-1")
					}
					if a, ok := x.Init.(*ast.AssignStmt); ok && len(a.Rhs) == 1 {
						emit(a.Rhs[0].Pos(), a.Rhs[0].End(), "one more", text(a.Rhs[0])+"+1")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.Pos(), x.End(), "drop not", text(x.X))
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK && x.Label == nil {
						emit(x.Pos(), x.End(), "continue", "continue")
						emit(x.Pos(), x.End(), "drop break", "{}")
					}
					if x.Tok == token.CONTINUE && x.Label == nil {
						emit(x.Pos(), x.End(), "break", "break")
						emit(x.Pos(), x.End(), "drop continue", "{}")
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						emit(x.Pos(), x.End(), "drop return", "{}")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), "constant", fmt.Sprint(v+1))
							if v > 0 {
								emit(x.Pos(), x.End(), "constant", fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "constant", "false")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "constant", "true")
					}
				}
				return true
			})
		}
	}
}
