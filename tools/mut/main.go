// mut lists or applies mutations of a Go file: mut FILE lists them, one a
// line; mut FILE N OUT writes the N-th mutant.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	pos, end int
	text     string
	fn       string
	line     int
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	var es []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	fn := ""
	add := func(p, e token.Pos, t string) {
		es = append(es, edit{off(p), off(e), t, fn, fs.Position(p).Line})
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"},
		token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		token.AND: {"|"}, token.OR: {"&"}, token.AND_NOT: {"&"}, token.REM: {"/"}, token.XOR: {"|"},
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "panic" {
					return false
				}
				if len(n.Args) == 2 && txt(n.Args[0]) != txt(n.Args[1]) {
					add(n.Args[0].Pos(), n.Args[1].End(), txt(n.Args[1])+", "+txt(n.Args[0]))
				}
			case *ast.BinaryExpr:
				for _, o := range swap[n.Op] {
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, _ := strconv.ParseInt(n.Value, 0, 64)
					add(n.Pos(), n.End(), fmt.Sprint(v+1))
					if v > 0 {
						add(n.Pos(), n.End(), fmt.Sprint(v-1))
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.SUB || n.Op == token.NOT {
					add(n.Pos(), n.X.Pos(), "")
				}
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "true || "+"("+txt(n.Cond)+")")
				add(n.Cond.Pos(), n.Cond.End(), "false && ("+txt(n.Cond)+")")
			case *ast.AssignStmt:
				if n.Tok == token.ADD_ASSIGN {
					add(n.TokPos, n.TokPos+2, "-=")
				}
				if n.Tok == token.SUB_ASSIGN {
					add(n.TokPos, n.TokPos+2, "+=")
				}
				if n.Tok != token.DEFINE {
					add(n.Pos(), n.End(), "")
				}
			case *ast.IncDecStmt:
				add(n.Pos(), n.End(), "")
			case *ast.ExprStmt:
				add(n.Pos(), n.End(), "")
			case *ast.BranchStmt:
				add(n.Pos(), n.End(), "")
			case *ast.SelectorExpr:
				m := map[string]string{"X": "Y", "Y": "X", "Min": "Max", "Max": "Min"}[n.Sel.Name]
				if m != "" {
					add(n.Sel.Pos(), n.Sel.End(), m)
				}
			case *ast.Ident:
				m := map[string]string{"true": "false", "false": "true"}[n.Name]
				if m != "" {
					add(n.Pos(), n.End(), m)
				}
			}
			return true
		})
	}
	if len(os.Args) < 4 {
		for i, e := range es {
			o := string(src[e.pos:e.end])
			fmt.Printf("%d\t%s\t%d\t%s -> %s\n", i, e.fn, e.line, strings.ReplaceAll(o, "\n", " "), strings.ReplaceAll(e.text, "\n", " "))
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	e := es[k]
	os.WriteFile(os.Args[3], []byte(string(src[:e.pos])+e.text+string(src[e.end:])), 0o644)
}
