// Command automut lists small source changes of a file: deleted statements, replaced
// conditions, removed cases, swapped neighbours, changed operators and results.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File, Op, New string
	Line, Off, End int
	Old           string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(op string, from, to token.Pos, repl string) {
			enc.Encode(mut{f, op, repl, fs.Position(from).Line, off(from), off(to), string(src[off(from):off(to)])})
		}
		simple := func(s ast.Stmt) bool {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
				return true
			case *ast.AssignStmt:
				return true
			case *ast.IfStmt:
				_ = s
				return true
			}
			return false
		}
		block := func(l []ast.Stmt) {
			for i, s := range l {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
					emit("delete", s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						if s.Tok == token.ASSIGN {
							emit("delete", s.Pos(), s.End(), strings.Repeat("_, ", len(s.Lhs)-1)+"_ = "+func() string {
								var r []string
								for _, e := range s.Rhs {
									r = append(r, text(e))
								}
								return strings.Join(r, ", ")
							}())
						} else {
							emit("delete", s.Pos(), s.End(), "")
						}
					}
				case *ast.IfStmt:
					if s.Else == nil && s.Init == nil {
						emit("delete-if", s.Pos(), s.End(), "_ = "+text(s.Cond))
					}
				case *ast.BranchStmt:
					if s.Tok == token.CONTINUE || s.Tok == token.BREAK {
						emit("delete", s.Pos(), s.End(), "")
					}
				}
				if d, ok := s.(*ast.DeferStmt); ok {
					emit("undefer", d.Pos(), d.End(), text(d.Call))
				}
				if g, ok := s.(*ast.GoStmt); ok {
					emit("ungo", g.Pos(), g.End(), text(g.Call))
				}
				if e, ok := s.(*ast.ExprStmt); ok {
					emit("go", e.Pos(), e.End(), "go func() { "+text(e)+" }()")
				}
				if i+1 < len(l) && simple(s) && simple(l[i+1]) {
					emit("swap", s.Pos(), l[i+1].End(), text(l[i+1])+"\n"+text(s))
				}
				if i+2 < len(l) && simple(s) && simple(l[i+2]) && simple(l[i+1]) {
					emit("down2", s.Pos(), l[i+2].End(), text(l[i+1])+"\n"+text(l[i+2])+"\n"+text(s))
					emit("up2", s.Pos(), l[i+2].End(), text(l[i+2])+"\n"+text(s)+"\n"+text(l[i+1]))
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				block(n.List)
			case *ast.CaseClause:
				block(n.Body)
				emit("drop-case", n.Pos(), n.End(), "")
			case *ast.CommClause:
				block(n.Body)
				emit("drop-comm", n.Pos(), n.End(), "")
				if n.Comm != nil {
					emit("empty-comm", n.Colon+1, n.End(), "")
				}
			case *ast.IfStmt:
				emit("true", n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")")
				emit("false", n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
				if n.Else != nil {
					if b, ok := n.Else.(*ast.BlockStmt); ok {
						emit("drop-else", b.Pos(), b.End(), "{}")
					}
				}
			case *ast.BinaryExpr:
				alt := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">",
					token.ADD: "-", token.SUB: "+", token.MUL: "/", token.QUO: "*", token.LAND: "||", token.LOR: "&&"}
				if a, ok := alt[n.Op]; ok {
					emit("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit("left", n.Pos(), n.End(), text(n.X))
					emit("right", n.Pos(), n.End(), text(n.Y))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					emit("lit", n.Pos(), n.End(), n.Value+"+1")
				}
			case *ast.Ident:
				if n.Name == "true" || n.Name == "false" {
					emit("bool", n.Pos(), n.End(), fmt.Sprint(n.Name != "true"))
				}
			case *ast.ReturnStmt:
				if k := len(n.Results); k > 0 {
					if id, ok := n.Results[k-1].(*ast.Ident); ok && strings.HasSuffix(strings.ToLower(id.Name), "err") {
						emit("nil-err", id.Pos(), id.End(), "nil")
					}
				}
			case *ast.KeyValueExpr:
				emit("drop-field", n.Pos(), n.End()+1, "")
			case *ast.FuncLit:
				return true
			case *ast.ImportSpec:
				return false
			}
			return true
		})
	}
}
