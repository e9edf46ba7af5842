// mutate lists small source changes of Go files as JSON lines (development
// tool; no registered check uses it).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File       string `json:"file"`
	Start, End int
	New        string
	Desc       string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.LAND: {"||"}, token.LOR: {"&&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		line := func(p token.Pos) int { return fs.Position(p).Line }
		emit := func(s, e int, n string, p token.Pos, d string) {
			enc.Encode(mut{f, s, e, n, fmt.Sprintf("%s:%d %s", f, line(p), d)})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok != token.VAR && x.Tok != token.CONST {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					o := off(x.OpPos)
					emit(o, o+len(x.Op.String()), s, x.OpPos, x.Op.String()+" -> "+s)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit(off(x.Pos()), off(x.End()), fmt.Sprint(v+1), x.Pos(), x.Value+" +1")
					}
				}
			case *ast.IfStmt:
				emit(off(x.Cond.Pos()), off(x.Cond.End()), "false && ("+text(x.Cond)+")", x.Pos(), "if false: "+text(x.Cond))
				emit(off(x.Cond.Pos()), off(x.Cond.End()), "true || ("+text(x.Cond)+")", x.Pos(), "if true: "+text(x.Cond))
			case *ast.ForStmt:
				if x.Cond != nil {
					emit(off(x.Cond.Pos()), off(x.Cond.End()), "false && ("+text(x.Cond)+")", x.Pos(), "for false")
				}
			case *ast.ReturnStmt:
				for i, r := range x.Results {
					t := text(r)
					if i == len(x.Results)-1 && t != "nil" && len(x.Results) > 1 {
						emit(off(r.Pos()), off(r.End()), "nil", x.Pos(), "return nil instead of "+t)
					}
					if t == "true" || t == "false" {
						emit(off(r.Pos()), off(r.End()), "!"+t, x.Pos(), "return !"+t)
					}
				}
			case *ast.BlockStmt:
				for i, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
						emit(off(s.Pos()), off(s.End()), "", s.Pos(), "delete "+text(s))
						if d, ok := s.(*ast.DeferStmt); ok && len(text(d)) < 60 {
							emit(off(s.Pos()), off(s.End()), text(d.Call), s.Pos(), "no defer "+text(s))
						}
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							emit(off(s.Pos()), off(s.End()), "", s.Pos(), "delete "+text(s))
						}
					}
					if i+1 < len(x.List) && line(s.Pos()) == line(s.End()) {
						t := x.List[i+1]
						if _, ok := t.(*ast.ReturnStmt); !ok && line(t.Pos()) == line(t.End()) {
							emit(off(s.Pos()), off(t.End()), text(t)+"\n"+text(s), s.Pos(), "swap with next: "+text(s))
						}
					}
				}
			}
			return true
		})
	}
}
