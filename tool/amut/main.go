// amut lists or makes small changes of a Go file: statements removed,
// conditions negated or halved, comparisons and constants shifted.
//
//	amut FILE        lists them
//	amut FILE N      writes the changed file to stdout
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	pos   token.Pos
	what  string
	apply func()
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var cs []change
	add := func(p token.Pos, what string, g func()) { cs = append(cs, change{p, what, g}) }
	text := func(n ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fset, n)
		s := bytes.ReplaceAll(b.Bytes(), []byte("\n"), []byte(" "))
		if len(s) > 90 {
			s = s[:90]
		}
		return string(bytes.ReplaceAll(s, []byte("\t"), nil))
	}
	slogCall := func(n ast.Node) bool {
		found := false
		ast.Inspect(n, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == "slog" {
					found = true
				}
			}
			return true
		})
		return found
	}
	list := func(l *[]ast.Stmt) {
		for i, s := range *l {
			i, s := i, s
			del := false
			switch s := s.(type) {
			case *ast.ExprStmt:
				del = !slogCall(s)
			case *ast.DeferStmt, *ast.GoStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.SendStmt:
				del = true
			case *ast.AssignStmt:
				del = s.Tok != token.DEFINE
			case *ast.IfStmt:
				del = s.Else == nil && s.Init == nil && !slogCall(s.Body) || s.Else == nil
			case *ast.ForStmt, *ast.RangeStmt:
				del = true
			}
			if del {
				add(s.Pos(), "delete: "+text(s), func() { (*l)[i] = &ast.EmptyStmt{Semicolon: s.Pos(), Implicit: false} })
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.CallExpr:
			if slogCall(n.Fun) {
				return false
			}
		case *ast.BlockStmt:
			list(&n.List)
		case *ast.CaseClause:
			list(&n.Body)
		case *ast.CommClause:
			list(&n.Body)
		case *ast.IfStmt:
			c := n.Cond
			add(c.Pos(), "negate: "+text(c), func() { n.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: c}} })
		case *ast.BinaryExpr:
			op := n.Op
			swap := map[token.Token][]token.Token{token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.REM: {token.QUO}, token.QUO: {token.REM}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND}}
			for _, o := range swap[op] {
				add(n.OpPos, fmt.Sprintf("%s for %s: %s", o, op, text(n)), func() { n.Op = o })
			}
			if op == token.LAND || op == token.LOR {
				x, y := n.X, n.Y
				add(n.OpPos, "left only: "+text(n), func() { n.Y = x })
				add(n.OpPos, "right only: "+text(n), func() { n.X = y })
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				v, err := strconv.ParseInt(n.Value, 0, 64)
				if err == nil {
					for _, d := range []int64{-1, 1} {
						d := d
						if v == 0 && d < 0 {
							continue
						}
						add(n.Pos(), fmt.Sprintf("%d for %s", v+d, n.Value), func() { n.Value = strconv.FormatInt(v+d, 10) })
					}
				}
			}
		case *ast.Ident:
			if n.Name == "true" || n.Name == "false" {
				add(n.Pos(), "flip "+n.Name, func() { n.Name = map[string]string{"true": "false", "false": "true"}[n.Name] })
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, c := range cs {
			fmt.Printf("%d\t%d\t%s\n", i, fset.Position(c.pos).Line, c.what)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	cs[n].apply()
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		panic(err)
	}
	os.Stdout.Write(b.Bytes())
}
