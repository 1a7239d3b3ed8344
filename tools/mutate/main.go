// mutate lists single-place changes of Go files: one JSON object {file,off,end,new,desc} per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"strconv"
)

type mut struct {
	File     string `json:"file"`
	Off, End int
	New      string
	Line     int
	Desc     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := ioutil.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		o := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(n ast.Node, nw, desc string) {
			a, b := o(n.Pos()), o(n.End())
			enc.Encode(mut{f, a, b, nw, fs.Position(n.Pos()).Line, desc + ": " + string(src[a:b]) + " -> " + nw})
		}
		txt := func(n ast.Node) string { return string(src[o(n.Pos()):o(n.End())]) }
		swap := map[token.Token][]string{
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swap[n.Op] {
					a, b := o(n.OpPos), o(n.OpPos)+len(n.Op.String())
					enc.Encode(mut{f, a, b, s, fs.Position(n.Pos()).Line, fmt.Sprintf("op %s: %s -> %s", n.Op, txt(n), s)})
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n, txt(n.X), "left only")
					emit(n, txt(n.Y), "right only")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n, fmt.Sprint(v+1), "literal")
						if v > 0 {
							emit(n, fmt.Sprint(v-1), "literal")
						}
					}
				} else if n.Kind == token.STRING && len(n.Value) > 2 {
					emit(n, `""`, "string")
				}
			case *ast.IfStmt:
				emit(n.Cond, "!("+txt(n.Cond)+")", "negate")
				emit(n.Cond, "("+txt(n.Cond)+") && false", "never")
				emit(n.Cond, "("+txt(n.Cond)+") || true", "always")
				if n.Else != nil {
					a, b := o(n.Body.End()), o(n.Else.End())
					enc.Encode(mut{f, a, b, "", fs.Position(n.Else.Pos()).Line, "no else"})
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond, "("+txt(n.Cond)+") && false", "no loop")
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					del(s, emit)
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					del(s, emit)
				}
			case *ast.ReturnStmt:
				if k := len(n.Results); k > 0 {
					last := n.Results[k-1]
					if id, ok := last.(*ast.Ident); ok && id.Name == "err" {
						emit(last, "nil", "swallow")
					}
					for _, r := range n.Results {
						if id, ok := r.(*ast.Ident); ok {
							switch id.Name {
							case "true":
								emit(r, "false", "return")
							case "false":
								emit(r, "true", "return")
							case "nil", "err":
							default:
								emit(r, "nil", "return")
							}
						}
					}
				}
			case *ast.IncDecStmt:
				t := "--"
				if n.Tok == token.DEC {
					t = "++"
				}
				enc.Encode(mut{f, o(n.TokPos), o(n.TokPos) + 2, t, fs.Position(n.Pos()).Line, "incdec: " + txt(n)})
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low, txt(n.Low)+"+1", "slice")
				}
				if n.High != nil {
					emit(n.High, txt(n.High)+"-1", "slice")
				}
			case *ast.CallExpr:
				if len(n.Args) >= 2 {
					for i := 0; i+1 < len(n.Args); i++ {
						a, b := n.Args[i], n.Args[i+1]
						enc.Encode(mut{f, o(a.Pos()), o(b.End()), txt(b) + ", " + txt(a), fs.Position(n.Pos()).Line, "swap args: " + txt(n)})
					}
				}
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
					emit(n, txt(n.Args[0]), "no append")
				}
				for _, a := range n.Args {
					emit(a, "nil", "nil arg")
				}
			case *ast.KeyValueExpr:
				emit(n.Value, "nil", "nil field")
			}
			return true
		})
	}
}

func del(s ast.Stmt, emit func(ast.Node, string, string)) {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.ReturnStmt, *ast.GoStmt:
		emit(s, "", "delete")
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			emit(s, "", "delete")
		}
	case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
		emit(s, "", "delete")
	}
}
