// mutate lists or applies small changes to a Go file: mutate FILE prints one line
// per change (number, function, line, text); mutate FILE N prints the file changed.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	want := -1
	if len(os.Args) > 2 {
		want, _ = strconv.Atoi(os.Args[2])
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	n := 0
	fn := ""
	line := func(p token.Pos) int { return fset.Position(p).Line }
	done := func() {
		var b bytes.Buffer
		format.Node(&b, fset, f)
		os.Stdout.Write(b.Bytes())
		os.Exit(0)
	}
	try := func(pos token.Pos, text string, change func()) {
		if n == want {
			change()
			done()
		}
		if want < 0 {
			fmt.Printf("%d\t%s\t%d\t%s\n", n, fn, line(pos), text)
		}
		n++
	}
	swap := map[token.Token][]token.Token{
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
		token.LSS: {token.LEQ, token.GTR}, token.GTR: {token.GEQ, token.LSS}, token.LEQ: {token.LSS}, token.GEQ: {token.GTR},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	}
	names := map[string]string{"Max": "Min", "Min": "Max", "Sin": "Cos", "Cos": "Sin", "X": "Y", "Y": "X", "Z": "X", "MaxElem": "MinElem", "Add": "Sub", "Sub": "Add", "Floor": "Ceil", "Ceil": "Floor", "min": "max", "max": "min"}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		if fd.Recv != nil {
			t := fd.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			if id, ok := t.(*ast.Ident); ok {
				fn = id.Name + "." + fn
			}
		}
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			switch e := x.(type) {
			case *ast.BinaryExpr:
				for _, o := range swap[e.Op] {
					o := o
					try(e.OpPos, e.Op.String()+" -> "+o.String(), func() { e.Op = o })
				}
			case *ast.UnaryExpr:
				if e.Op == token.SUB {
					try(e.OpPos, "- dropped", func() { e.Op = token.ADD })
				}
			case *ast.BasicLit:
				if e.Kind == token.FLOAT || e.Kind == token.INT {
					if e.Kind == token.INT {
						try(e.Pos(), e.Value+" -> +1", func() { e.Value = "(" + e.Value + "+1)" })
					} else {
						try(e.Pos(), e.Value+" -> *1.5", func() { e.Value = "(" + e.Value + "*1.5)" })
					}
				}
			case *ast.SelectorExpr:
				if r, ok := names[e.Sel.Name]; ok {
					try(e.Pos(), e.Sel.Name+" -> "+r, func() { e.Sel.Name = r })
				}
			case *ast.IfStmt:
				try(e.Pos(), "if negated", func() { e.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e.Cond}} })
				try(e.Pos(), "if false", func() {
					e.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: e.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
				})
			case *ast.BlockStmt:
				for i, s := range e.List {
					i := i
					switch a := s.(type) {
					case *ast.AssignStmt:
						if a.Tok != token.DEFINE {
							try(s.Pos(), "assignment dropped", func() {
								for k := range a.Lhs {
									_ = k
								}
								e.List[i] = &ast.IfStmt{If: s.Pos(), Cond: ast.NewIdent("false"), Body: &ast.BlockStmt{List: []ast.Stmt{s}}}
							})
						}
						if a.Tok == token.ADD_ASSIGN {
							try(s.Pos(), "+= -> -=", func() { a.Tok = token.SUB_ASSIGN })
						}
					case *ast.ExprStmt, *ast.IncDecStmt:
						try(s.Pos(), "statement dropped", func() {
							e.List[i] = &ast.IfStmt{If: s.Pos(), Cond: ast.NewIdent("false"), Body: &ast.BlockStmt{List: []ast.Stmt{s}}}
						})
					case *ast.BranchStmt:
						_ = a
					}
				}
			case *ast.CallExpr:
				if len(e.Args) == 2 {
					try(e.Pos(), "arguments swapped", func() { e.Args[0], e.Args[1] = e.Args[1], e.Args[0] })
				}
			}
			return true
		})
	}
}
