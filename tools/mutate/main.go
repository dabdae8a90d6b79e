// mutate DIR FILE...: prints one JSON line per single-place change of the files (development only)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mutant struct {
	File       string
	Start, End int
	New        string
	What       string
	Line       int
}

func main() {
	dir := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, n, what string) {
			enc.Encode(mutant{f, off(a), off(b), n, what, fs.Position(a).Line})
		}
		swap := map[token.Token][]string{
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"},
		}
		methods := map[string][]string{"Add": {"Sub"}, "Sub": {"Add"}, "Mul": {"Add"}, "Multiply": {"Add"}, "Mod": {"Div", "Rem"}, "Div": {"Mod", "Quo"}, "Neg": {"Set", "Abs"}, "Square": {"Set"},
			"ModInverse": {"Mod"}, "Double": {"Set"}, "Conjugate": {"Set"}, "Negative": {"Set"}, "Frobenius": {"FrobeniusP2"}, "FrobeniusP2": {"Frobenius"}, "MulTau": {"Set"}, "MulXi": {"Set"}, "SetZero": {"SetOne"}, "SetOne": {"SetZero"}, "Cmp": {"CmpAbs"}, "Invert": {"Set"}, "ScalarMult": {"Add"}, "Lsh": {"Rsh"}}
		for _, d := range tree.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, o := range swap[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, "operator "+n.Op.String())
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(n.Pos(), n.End(), fmt.Sprint(v+1), "literal")
							if v > 0 {
								emit(n.Pos(), n.End(), fmt.Sprint(v-1), "literal")
							}
						}
					}
				case *ast.IfStmt:
					emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "condition never")
					emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "condition negated")
				case *ast.ExprStmt:
					emit(n.Pos(), n.End(), "", "statement removed")
				case *ast.AssignStmt:
					if n.Tok == token.ASSIGN {
						emit(n.Pos(), n.End(), "", "assignment removed")
					}
				case *ast.IncDecStmt:
				case *ast.CallExpr:
					if s, ok := n.Fun.(*ast.SelectorExpr); ok {
						for _, o := range methods[s.Sel.Name] {
							emit(s.Sel.Pos(), s.Sel.End(), o, "method "+s.Sel.Name)
						}
					}
					if len(n.Args) >= 2 && text(n.Args[0]) != text(n.Args[1]) {
						emit(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "arguments swapped")
					}
					for i := 0; i+1 < len(n.Args); i++ {
						if text(n.Args[i]) != text(n.Args[i+1]) && i < 2 {
							emit(n.Args[i].Pos(), n.Args[i].End(), text(n.Args[i+1]), "argument repeated")
						}
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							emit(r.Pos(), r.End(), map[string]string{"true": "false", "false": "true"}[id.Name], "return value")
						}
					}
				}
				return true
			})
		}
	}
}
