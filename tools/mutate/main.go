// Command mutate lists small changes of Go files: one JSON object per line with the file, the
// offsets of what is replaced and the replacement. tools/campaign.py applies them to scratch copies.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"strconv"
)

type mutant struct {
	File       string
	Line       int
	Func       string
	Start, End int
	New        string
	Desc       string
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"},
	token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.ADD: {"-"}, token.SUB: {"+"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"/"}, token.QUO: {"*"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := ioutil.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(start, end token.Pos, repl, desc string) {
			if err := enc.Encode(mutant{file, fset.Position(start).Line, fn, off(start), off(end), repl, desc}); err != nil {
				panic(err)
			}
		}
		short := func(s string) string {
			if len(s) > 60 {
				s = s[:60] + "..."
			}
			return s
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				if g, ok := d.(*ast.GenDecl); !ok || g.Tok != token.VAR {
					continue
				}
				fn = "var"
			} else {
				fn = fd.Name.Name
			}
			stmts := func(list []ast.Stmt) {
				for _, s := range list {
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
						emit(s.Pos(), s.End(), "", "delete "+short(text(s)))
					case *ast.ReturnStmt:
						if fd != nil && (fd.Type.Results == nil || fd.Type.Results.NumFields() == 0) {
							emit(s.Pos(), s.End(), "", "delete return")
						}
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							emit(s.Pos(), s.End(), "", "delete "+short(text(s)))
						}
					case *ast.IfStmt:
						emit(s.Pos(), s.End(), "", "delete "+short(text(s)))
					}
				}
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					stmts(n.List)
				case *ast.CaseClause:
					stmts(n.Body)
					for i, e := range n.List {
						if len(n.List) > 1 {
							if i == 0 {
								emit(e.Pos(), n.List[1].Pos(), "", "drop case "+text(e))
							} else {
								emit(n.List[i-1].End(), e.End(), "", "drop case "+text(e))
							}
						}
					}
					if len(n.List) == 1 {
						emit(n.Pos(), n.End(), "", "drop clause "+short(text(n.List[0])))
					}
				case *ast.BinaryExpr:
					for _, s := range swaps[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, fmt.Sprintf("%s -> %s in %s", n.Op, s, short(text(n))))
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						emit(n.Pos(), n.End(), text(n.X), "only left of "+short(text(n)))
						emit(n.Pos(), n.End(), text(n.Y), "only right of "+short(text(n)))
					}
				case *ast.IfStmt:
					emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+short(text(n.Cond)))
					if n.Else != nil {
						emit(n.Body.End(), n.Else.End(), "", "drop else "+short(text(n.Else)))
					}
				case *ast.BasicLit:
					switch n.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" -> +1")
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" -> -1")
						}
					case token.STRING:
						if len(n.Value) > 2 {
							emit(n.Pos(), n.End(), `""`, n.Value+` -> ""`)
						}
					case token.CHAR:
						emit(n.Pos(), n.End(), `'\x01'`, n.Value+` -> \x01`)
					}
				case *ast.Ident:
					if n.Name == "true" {
						emit(n.Pos(), n.End(), "false", "true -> false")
					}
					if n.Name == "false" {
						emit(n.Pos(), n.End(), "true", "false -> true")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						emit(n.Pos(), n.End(), text(n.X), "drop ! of "+short(text(n.X)))
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						emit(n.Low.Pos(), n.Low.End(), "", "drop low of "+short(text(n)))
					}
					if n.High != nil {
						emit(n.High.Pos(), n.High.End(), "", "drop high of "+short(text(n)))
					}
				}
				return true
			})
		}
	}
}
