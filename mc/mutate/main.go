// Command mutate lists single-site changes ("mutants") of Go source files. It is a
// development aid: the checks never use it. Each output line is a JSON object
// {file, off, len, new, line, what}: replace len bytes at off by new.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Line int    `json:"line"`
	What string `json:"what"`
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR},
	token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL},
	token.REM: {token.QUO}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	token.AND: {token.OR}, token.OR: {token.AND}, token.XOR: {token.OR},
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, rel := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, rel))
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, rel, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
		emit := func(a, b token.Pos, n, what string) {
			enc.Encode(mutant{rel, off(a), off(b) - off(a), n, fs.Position(a).Line, what})
		}
		_ = printer.Fprint
		_ = bytes.NewBuffer
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
					emit(s.Pos(), s.End(), "", "drop: "+text(s.Pos(), s.End()))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "drop: "+text(s.Pos(), s.End()))
					}
				case *ast.DeferStmt:
					emit(s.Pos(), s.End(), "", "drop: "+text(s.Pos(), s.End()))
					emit(s.Pos(), s.End(), text(x.Call.Pos(), x.Call.End()), "undefer: "+text(s.Pos(), s.End()))
				case *ast.GoStmt:
					emit(s.Pos(), s.End(), text(x.Call.Pos(), x.Call.End()), "ungo: "+text(s.Pos(), s.End()))
					emit(s.Pos(), s.End(), "", "drop: "+text(s.Pos(), s.End()))
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						emit(s.Pos(), s.End(), "break", "continue->break")
						emit(s.Pos(), s.End(), "", "drop continue")
					} else if x.Tok == token.BREAK {
						emit(s.Pos(), s.End(), "continue", "break->continue")
						emit(s.Pos(), s.End(), "", "drop break")
					}
				case *ast.ReturnStmt:
					emit(s.Pos(), s.End(), "", "drop return")
					for _, r := range x.Results {
						t := text(r.Pos(), r.End())
						if t == "true" {
							emit(r.Pos(), r.End(), "false", "return false")
						} else if t == "false" {
							emit(r.Pos(), r.End(), "true", "return true")
						} else if t != "nil" {
							emit(r.Pos(), r.End(), "nil", "return nil for "+t)
						}
					}
				case *ast.IfStmt:
					c := text(x.Cond.Pos(), x.Cond.End())
					emit(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate: "+c)
					emit(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "never: "+c)
					emit(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "always: "+c)
				case *ast.ForStmt:
					if x.Cond == nil && x.Init == nil {
						emit(x.Body.Rbrace, x.Body.Rbrace, "break;", "loop once")
					}
				}
				if i+1 < len(list) {
					a, b := s, list[i+1]
					mid := text(a.End(), b.Pos())
					emit(a.Pos(), b.End(), text(b.Pos(), b.End())+mid+text(a.Pos(), a.End()), "swap: "+first(text(a.Pos(), a.End()))+" / "+first(text(b.Pos(), b.End())))
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.BinaryExpr:
				for _, t := range swaps[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t.String(), fmt.Sprintf("%s->%s in %s", x.Op, t, text(x.Pos(), x.End())))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X.Pos(), x.X.End()), "only left of "+text(x.Pos(), x.End()))
					emit(x.Pos(), x.End(), text(x.Y.Pos(), x.Y.End()), "only right of "+text(x.Pos(), x.End()))
				}
			case *ast.AssignStmt:
				switch x.Tok {
				case token.ADD_ASSIGN:
					emit(x.TokPos, x.TokPos+2, "-=", "+= -> -=")
					emit(x.TokPos, x.TokPos+2, "=", "+= -> =")
				}
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					emit(x.TokPos, x.TokPos+2, "--", "++ -> --")
				} else {
					emit(x.TokPos, x.TokPos+2, "++", "-- -> ++")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", x.Value+"+1")
					emit(x.Pos(), x.End(), "("+x.Value+"-1)", x.Value+"-1")
				case token.STRING:
					if len(x.Value) > 2 && x.Value[0] == '"' {
						emit(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"x\"", "string "+x.Value)
					}
				case token.CHAR:
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", "char "+x.Value)
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true->false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false->true")
				}
			case *ast.SelectorExpr:
				switch x.Sel.Name {
				case "Lock":
					emit(x.Sel.Pos(), x.Sel.End(), "RLock", "Lock->RLock")
				case "RLock":
					emit(x.Sel.Pos(), x.Sel.End(), "Lock", "RLock->Lock")
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" {
					return true
				}
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) == 2 && strings.HasPrefix(text(x.Args[0].Pos(), x.Args[0].End()), "chan") {
					emit(x.Args[1].Pos(), x.Args[1].End(), "1", "chan size 1")
				}
				if len(x.Args) >= 2 && !x.Ellipsis.IsValid() {
					a, b := x.Args[len(x.Args)-2], x.Args[len(x.Args)-1]
					emit(a.Pos(), b.End(), text(b.Pos(), b.End())+text(a.End(), b.Pos())+text(a.Pos(), a.End()), "swap args: "+text(a.Pos(), b.End()))
				}
			case *ast.SliceExpr:
				if x.Low != nil && x.High == nil {
					emit(x.Low.Pos(), x.Low.End(), "("+text(x.Low.Pos(), x.Low.End())+")+1", "slice low+1")
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), "("+text(x.High.Pos(), x.High.End())+")-1", "slice high-1")
				}
			}
			return true
		})
	}
}

func first(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i] + "..."
	}
	return s
}
