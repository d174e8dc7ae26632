// instr SRCDIR DSTDIR rewrites the Go files of a package so that it runs under
// the scheduler of package vs: gates before statements, selects with a
// controlled choice, mutexes that park at gates, net.Listen redirected. Files
// importing anything but the standard library and joy5, tests and
// cgo files are left out. It prints the files it wrote.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var fset = token.NewFileSet()

var syncNames = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`Load Store Swap CompareAndSwap CompareAndDelete Add LoadOrStore LoadAndDelete Delete Range Clear And Or
 Lock Unlock RLock RUnlock TryLock TryRLock Do Wait Done Signal Broadcast cancel Cancel close Err Get Put Read Write ReadPacket WritePacket Close`) {
		syncNames[n] = true
	}
}

func isSyncCall(c *ast.CallExpr) bool {
	switch f := c.Fun.(type) {
	case *ast.Ident:
		return f.Name == "close" || f.Name == "cancel"
	case *ast.SelectorExpr:
		if x, ok := f.X.(*ast.Ident); ok && (x.Name == "atomic" || x.Name == "time") {
			return true
		}
		return syncNames[f.Sel.Name]
	}
	return false
}

// level classifies what a statement's own header does: 1 synchronises,
// 0 may touch shared memory, -1 neither.
func level(ns ...ast.Node) int {
	l := -1
	for _, n := range ns {
		if n == nil || isNil(n) {
			continue
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					l = 1
				}
			case *ast.SendStmt, *ast.SelectStmt:
				l = 1
			case *ast.CallExpr:
				if isSyncCall(n) {
					l = 1
				} else if l < 0 {
					l = 0
				}
			case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr, *ast.SliceExpr:
				if l < 0 {
					l = 0
				}
			}
			return true
		})
	}
	return l
}

func isNil(n ast.Node) bool {
	switch v := n.(type) {
	case ast.Expr:
		return v == nil
	case ast.Stmt:
		return v == nil
	}
	return false
}

func hasRecv(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.SendStmt:
			r = true
		case *ast.UnaryExpr:
			r = r || n.Op == token.ARROW
		case *ast.CallExpr:
			if s, ok := n.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Wait" || s.Sel.Name == "Sleep") {
				r = true
			}
		}
		return true
	})
	return r
}

func line(p token.Pos) int { return fset.Position(p).Line }

func gate(lv, ln int) ast.Stmt {
	return &ast.ExprStmt{X: call("Gate", lv, ln)}
}

func call(f string, args ...int) *ast.CallExpr {
	c := &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vs_"), Sel: ast.NewIdent(f)}}
	for _, a := range args {
		c.Args = append(c.Args, &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(a)})
	}
	return c
}

func block(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, stmt(s)...)
	}
	return out
}

func funcs(n ast.Node) {
	if n == nil || isNil(n) {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.FuncLit:
			n.Body.List = block(n.Body.List)
			return false
		}
		return true
	})
}

func stmt(s ast.Stmt) []ast.Stmt {
	ln := line(s.Pos())
	pre := func(lv int, s ...ast.Stmt) []ast.Stmt {
		if lv < 0 || onlyGo {
			return s
		}
		return append([]ast.Stmt{gate(lv, ln)}, s...)
	}
	switch s := s.(type) {
	case *ast.BlockStmt:
		s.List = block(s.List)
		return []ast.Stmt{s}
	case *ast.LabeledStmt:
		in := stmt(s.Stmt)
		// keep the label on the statement itself
		s.Stmt = in[len(in)-1]
		for i := range in {
			switch in[i].(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
				s.Stmt = in[i]
				return append(append(append([]ast.Stmt{}, in[:i]...), s), in[i+1:]...)
			}
		}
		return append(append([]ast.Stmt{}, in[:len(in)-1]...), s)
	case *ast.IfStmt:
		lv := level(s.Init, s.Cond)
		for e := s.Else; e != nil; {
			ei, ok := e.(*ast.IfStmt)
			if !ok {
				break
			}
			if l := level(ei.Init, ei.Cond); l > lv {
				lv = l
			}
			e = ei.Else
		}
		ifs(s)
		return pre(lv, s)
	case *ast.ForStmt:
		lv := level(s.Init)
		if s.Init != nil {
			funcs(s.Init)
		}
		funcs(s.Cond)
		body := block(s.Body.List)
		if l := level(s.Cond, s.Post); l >= 0 && !onlyGo {
			if l > lv {
				lv = l
			}
			body = append([]ast.Stmt{gate(l, ln)}, body...)
		}
		s.Body.List = body
		return pre(lv, s)
	case *ast.RangeStmt:
		funcs(s.X)
		s.Body.List = block(s.Body.List)
		if !onlyGo {
			s.Body.List = append([]ast.Stmt{gate(0, ln)}, s.Body.List...)
		}
		return pre(level(s.X), s)
	case *ast.SwitchStmt:
		lv := level(s.Init, s.Tag)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = block(cc.Body)
		}
		return pre(lv, s)
	case *ast.TypeSwitchStmt:
		lv := level(s.Init, s.Assign)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = block(cc.Body)
		}
		return pre(lv, s)
	case *ast.SelectStmt:
		if onlyGo {
			for _, c := range s.Body.List {
				cc := c.(*ast.CommClause)
				cc.Body = block(cc.Body)
			}
			return []ast.Stmt{s}
		}
		return pre(1, sel(s)...)
	case *ast.GoStmt:
		return pre(1, gost(s)...)
	case *ast.DeferStmt:
		lv := level(s.Call)
		// a goroutine parks before the deferred call runs
		funcs(s.Call)
		if isSyncCall(s.Call) && !onlyGo {
			return []ast.Stmt{s, &ast.DeferStmt{Call: call("Gate", 1, ln)}}
		}
		return pre(lv, s)
	case *ast.DeclStmt, *ast.EmptyStmt, *ast.BranchStmt:
		lv := level(s)
		funcs(s)
		return pre(lv, s)
	case *ast.ReturnStmt:
		lv := level(s)
		funcs(s)
		return pre(lv, s)
	default:
		lv := level(s)
		rv := hasRecv(s)
		funcs(s)
		out := pre(lv, s)
		if rv && !onlyGo {
			out = append(out, gate(1, ln))
		}
		return out
	}
}

func ifs(s *ast.IfStmt) {
	if s.Init != nil {
		funcs(s.Init)
	}
	funcs(s.Cond)
	s.Body.List = block(s.Body.List)
	switch e := s.Else.(type) {
	case *ast.BlockStmt:
		e.List = block(e.List)
	case *ast.IfStmt:
		ifs(e)
	}
}

func hasLabel(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.LabeledStmt); ok {
			r = true
		}
		return true
	})
	return r
}

func sel(s *ast.SelectStmt) []ast.Stmt {
	ln := line(s.Pos())
	var comm []*ast.CommClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		cc.Body = block(cc.Body)
		if cc.Comm != nil {
			comm = append(comm, cc)
			cc.Body = append([]ast.Stmt{gate(1, line(cc.Pos()))}, cc.Body...)
		}
	}
	if len(comm) < 2 || hasLabel(s) {
		return []ast.Stmt{s}
	}
	sw := &ast.SwitchStmt{Tag: call("Pick", ln, len(comm)), Body: &ast.BlockStmt{}}
	for i, c := range comm {
		cl := &ast.CaseClause{}
		if i < len(comm)-1 {
			cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}
		}
		cl.Body = []ast.Stmt{&ast.SelectStmt{Body: &ast.BlockStmt{List: []ast.Stmt{
			c,
			&ast.CommClause{Body: []ast.Stmt{s}},
		}}}}
		sw.Body.List = append(sw.Body.List, cl)
	}
	return []ast.Stmt{sw}
}

func gost(s *ast.GoStmt) []ast.Stmt {
	ln := line(s.Pos())
	enter := []ast.Stmt{&ast.ExprStmt{X: call("Enter", ln)}, &ast.DeferStmt{Call: call("Exit")}}
	if fl, ok := s.Call.Fun.(*ast.FuncLit); ok {
		fl.Body.List = append(enter, block(fl.Body.List)...)
		return []ast.Stmt{s}
	}
	// { f, a := F, A; go func() { vs.Enter(); f(a) }() }
	var lhs, rhs, args []ast.Expr
	fn := ast.NewIdent("vs_f")
	lhs, rhs = append(lhs, fn), append(rhs, s.Call.Fun)
	for i, a := range s.Call.Args {
		switch a := a.(type) {
		case *ast.BasicLit:
			args = append(args, a)
			continue
		case *ast.Ident:
			if a.Name == "nil" || a.Name == "true" || a.Name == "false" {
				args = append(args, a)
				continue
			}
		}
		id := ast.NewIdent(fmt.Sprintf("vs_a%d", i))
		lhs, rhs, args = append(lhs, id), append(rhs, a), append(args, id)
	}
	c := &ast.CallExpr{Fun: fn, Args: args}
	if s.Call.Ellipsis.IsValid() {
		c.Ellipsis = 1
	}
	return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs},
		&ast.GoStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: append(enter, &ast.ExprStmt{X: c})}}}},
	}}}
}

func types(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				switch {
				case x.Name == "sync" && (s.Sel.Name == "Mutex" || s.Sel.Name == "RWMutex" || s.Sel.Name == "Once" || s.Sel.Name == "Map"),
					x.Name == "net" && s.Sel.Name == "Listen":
					x.Name = "vs_"
				}
			}
		}
		return true
	})
}

func skip(f *ast.File) bool {
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "C" || strings.Contains(strings.Split(p, "/")[0], ".") && !strings.HasPrefix(p, "github.com/nareix/joy5") {
			return true
		}
	}
	return false
}

func used(f *ast.File, name string) bool {
	u := false
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == name {
				u = true
			}
		}
		return true
	})
	return u
}

// onlyGo makes go statements the only ones rewritten.
var onlyGo bool

func main() {
	if os.Args[1] == "-go" {
		onlyGo = true
		os.Args = os.Args[1:]
	}
	src, dst := os.Args[1], os.Args[2]
	names, _ := filepath.Glob(filepath.Join(src, "*.go"))
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		if skip(f) {
			continue
		}
		if !onlyGo {
			types(f)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body != nil {
					d.Body.List = block(d.Body.List)
				}
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						for _, v := range s.(*ast.ValueSpec).Values {
							funcs(v)
						}
					}
				}
			}
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport vs_ \"joyverif/vs\"\n", f.Name.Name)
		for _, im := range f.Imports {
			name := ""
			if im.Name != nil {
				name = im.Name.Name
			}
			fmt.Fprintf(&b, "import %s %s\n", name, im.Path.Value)
			p, _ := strconv.Unquote(im.Path.Value)
			if name == "" && (p == "sync" || p == "net") && !used(f, filepath.Base(p)) {
				b.Truncate(b.Len() - len(fmt.Sprintf("import %s %s\n", name, im.Path.Value)))
			}
		}
		fmt.Fprintf(&b, "\nvar _ = vs_.Gate\n\n")
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			// positions are dropped so that inserted statements print in order
			if err := (&printer.Config{Mode: printer.TabIndent, Tabwidth: 8}).Fprint(&b, token.NewFileSet(), d); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			b.WriteString("\n\n")
		}
		out := filepath.Join(dst, filepath.Base(n))
		if err := os.WriteFile(out, b.Bytes(), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fmt.Println(filepath.Base(n))
	}
}
