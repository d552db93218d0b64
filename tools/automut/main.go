// automut lists small mutations of Go files: one JSON object per line {file, start, end, new, desc}.
// Development aid for tools/automut.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mut struct {
	File       string `json:"file"`
	Start, End int
	New, Desc  string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		emit := func(n ast.Node, repl, kind string) {
			s, e := off(n.Pos()), off(n.End())
			enc.Encode(mut{file, s, e, repl, fmt.Sprintf("%s:%d %s %s: %.60q -> %.60q", file, fset.Position(n.Pos()).Line, fn, kind, src[s:e], repl)})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "Error" {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					emit(x.Cond, "!("+text(x.Cond)+")", "negate")
					if x.Init == nil {
						emit(x.Cond, "false && ("+text(x.Cond)+")", "never")
						emit(x.Cond, "true || ("+text(x.Cond)+")", "always")
					} else {
						emit(x.Cond, "false && ("+text(x.Cond)+")", "never")
					}
				case *ast.ExprStmt:
					emit(x, "", "drop")
				case *ast.IncDecStmt:
					emit(x, "", "drop")
				case *ast.DeferStmt:
					emit(x, "", "drop")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						allBlank := true
						for _, r := range x.Lhs {
							if id, ok := r.(*ast.Ident); !ok || id.Name != "_" {
								allBlank = false
							}
						}
						if !allBlank {
							s := ""
							for i, r := range x.Rhs {
								if i > 0 {
									s += "; "
								}
								s += "_ = " + text(r)
							}
							if len(x.Rhs) == 1 && len(x.Lhs) == 1 {
								emit(x, s, "drop-assign")
							} else {
								emit(x, "", "drop-assign")
							}
						}
					}
				case *ast.BinaryExpr:
					var alts []string
					switch x.Op {
					case token.LSS:
						alts = []string{"<=", ">="}
					case token.LEQ:
						alts = []string{"<"}
					case token.GTR:
						alts = []string{">="}
					case token.GEQ:
						alts = []string{">"}
					case token.EQL:
						alts = []string{"!="}
					case token.NEQ:
						alts = []string{"=="}
					case token.LAND:
						alts = []string{"||"}
					case token.LOR:
						alts = []string{"&&"}
					case token.ADD:
						alts = []string{"-"}
					case token.SUB:
						alts = []string{"+"}
					case token.MUL:
						alts = []string{"+"}
					case token.REM:
						alts = []string{"/"}
					}
					for _, a := range alts {
						emit(x, text(x.X)+" "+a+" "+text(x.Y), "op")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x, text(x.X), "left-only")
						emit(x, text(x.Y), "right-only")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						emit(x, text(x)+"+1", "lit+1")
						if x.Value != "0" {
							emit(x, text(x)+"-1", "lit-1")
						}
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok {
							switch id.Name {
							case "true":
								emit(r, "false", "ret")
							case "false":
								emit(r, "true", "ret")
							case "err":
								emit(r, "nil", "ret-nil")
							}
						} else if c, ok := r.(*ast.CallExpr); ok {
							_ = c
							emit(r, "nil", "ret-nil")
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x.Low, text(x.Low)+"+1", "low+1")
					}
					if x.High != nil {
						emit(x.High, text(x.High)+"-1", "high-1")
					}
				case *ast.CaseClause:
					for _, s := range x.List {
						_ = s
					}
				case *ast.BlockStmt:
					// swap neighbouring statements
					for i := 0; i+1 < len(x.List); i++ {
						a, b := x.List[i], x.List[i+1]
						if _, ok := b.(*ast.ReturnStmt); ok {
							continue
						}
						s, m, m2, e := off(a.Pos()), off(a.End()), off(b.Pos()), off(b.End())
						repl := string(src[m2:e]) + string(src[m:m2]) + string(src[s:m])
						enc.Encode(mut{file, s, e, repl, fmt.Sprintf("%s:%d %s swap-next %.50q", file, fset.Position(a.Pos()).Line, fn, src[s:m])})
					}
				case *ast.KeyValueExpr:
					if id, ok := x.Value.(*ast.Ident); ok && id.Name != "nil" {
						_ = id
					}
				case *ast.BranchStmt, *ast.GoStmt:
					emit(n, "", "drop")
				}
				return true
			})
		}
	}
}
