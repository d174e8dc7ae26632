// Command mutate lists small changes of a Go file, one per line:
// offset, length, replacement (quoted), line and kind. It is used to look for
// changes no check notices; it is no part of any check.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

func main() {
	file := os.Args[1]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	emit := func(from, to token.Pos, repl, kind string) {
		fmt.Printf("%d\t%d\t%s\t%d\t%s\n", off(from), off(to)-off(from), strconv.Quote(repl), fset.Position(from).Line, kind)
	}
	text := func(n ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, fset, n)
		return b.String()
	}
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"+"}, token.REM: {"/"},
	}
	cond := func(e ast.Expr) {
		if e == nil {
			return
		}
		emit(e.Pos(), e.End(), "!("+text(e)+")", "negate")
		emit(e.Pos(), e.End(), "("+text(e)+") && false", "false")
		emit(e.Pos(), e.End(), "("+text(e)+") || true", "true")
	}
	stmts := func(l []ast.Stmt) {
		for i, s := range l {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
				emit(s.Pos(), s.End(), "", "delete")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					r := ""
					for _, e := range x.Rhs {
						r += "_ = " + text(e) + ";"
					}
					emit(s.Pos(), s.End(), r, "delete")
				}
				if x.Tok == token.ADD_ASSIGN {
					emit(x.TokPos, x.TokPos+2, "-=", "op")
				}
			case *ast.BranchStmt:
				emit(s.Pos(), s.End(), "", "delete")
			case *ast.ReturnStmt:
				if len(x.Results) == 0 && i == len(l)-1 {
					emit(s.Pos(), s.End(), "", "delete")
				}
			}
			// neighbours exchanged
			if i+1 < len(l) {
				simple := func(s ast.Stmt) bool {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						return true
					case *ast.AssignStmt:
						return x.Tok != token.DEFINE
					case *ast.IfStmt:
						return true
					}
					return false
				}
				if simple(s) && simple(l[i+1]) {
					emit(s.Pos(), l[i+1].End(), text(l[i+1])+"\n"+text(s), "exchange")
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, o := range swap[x.Op] {
				emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					emit(x.Pos(), x.End(), fmt.Sprint(v+1), "const")
					if v > 1 {
						emit(x.Pos(), x.End(), fmt.Sprint(v-1), "const")
					}
				}
			}
		case *ast.IfStmt:
			cond(x.Cond)
			if x.Else != nil {
				emit(x.Body.End(), x.Else.End(), "", "noelse")
			}
		case *ast.ForStmt:
			if x.Cond != nil {
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "false")
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			for _, e := range x.List {
				if len(x.List) > 1 {
					_ = e
				}
			}
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.Ident:
			if x.Name == "true" {
				emit(x.Pos(), x.End(), "false", "bool")
			} else if x.Name == "false" {
				emit(x.Pos(), x.End(), "true", "bool")
			}
		}
		return true
	})
}
