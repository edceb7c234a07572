// Command instr rewrites the non-test Go sources of the packages under test into a
// scratch directory and writes a `go build -overlay` file for them. It inserts a
// scheduling point before every statement, replaces the "sync" package by a
// channel-based twin (so that blocked goroutines are durably blocked for
// testing/synctest) and makes goroutines report panics. It knows nothing about what
// the code does.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const base = "github.com/kataras/neffos"

func main() {
	if os.Args[1] == "clients" {
		for _, dep := range []string{"github.com/mediocregopher/radix/v3", "github.com/nats-io/nats.go"} {
			client(dep, os.Args[2])
		}
		return
	}
	repo, out, vs, mode := os.Args[1], os.Args[2], os.Args[3], os.Args[4] // mode: full | plain
	replace := map[string]string{}
	add := func(dst, src string) { replace[filepath.Join(repo, dst)] = src }
	add("vsched/vsched.go", filepath.Join(vs, "vsched.go"))
	add("vsched/vsync/vsync.go", filepath.Join(vs, "vsync/vsync.go"))
	if mode == "full" {
		for _, dir := range []string{"", "gobwas", "gorilla", "stackexchange/redis", "stackexchange/nats"} {
			ents, err := os.ReadDir(filepath.Join(repo, dir))
			if err != nil {
				fatal(err)
			}
			for _, e := range ents {
				n := e.Name()
				if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
					continue
				}
				src := filepath.Join(repo, dir, n)
				b, err := os.ReadFile(src)
				if err != nil {
					fatal(err)
				}
				res, err := rewrite(src, b)
				if err != nil {
					fatal(err)
				}
				dst := filepath.Join(out, "src", dir, n)
				os.MkdirAll(filepath.Dir(dst), 0o755)
				if err := os.WriteFile(dst, res, 0o644); err != nil {
					fatal(err)
				}
				replace[src] = dst
			}
		}
	}
	add("vsched/vdep/vdep.go", filepath.Join(vs, "vdep/vdep.go"))
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		fatal(err)
	}
}

// client copies a broker client library: "sync" is replaced, radix dials where it is told to
// and reports its pools.
func client(dep, out string) {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", dep)
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	b, err := cmd.Output()
	if err != nil {
		fatal(err)
	}
	dir := strings.TrimSpace(string(b))
	root := filepath.Join(out, "dep", filepath.Base(dep))
	err = filepath.WalkDir(dir, func(src string, e os.DirEntry, err error) error {
		n := e.Name()
		if err != nil || e.IsDir() || strings.HasSuffix(n, "_test.go") || !(strings.HasSuffix(n, ".go") || n == "go.mod") {
			return err
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		vdep := `"` + base + `/vsched/vdep"`
		s := strings.Replace(string(b), "\t\"sync\"\n", "\tsync "+vdep+"\n", 1)
		if strings.Contains(dep, "radix") {
			switch n {
			case "conn.go":
				s = strings.Replace(s, "import (", "import (\n\tvdep__ "+vdep+"\n", 1)
				s = strings.Replace(s, "netConn, err = dialer.Dial(network, addr)", "netConn, err = vdep__.Dial(network, addr)", 1)
			case "pool.go":
				s = strings.Replace(s, "import (", "import (\n\tvdep__ "+vdep+"\n", 1)
				s = strings.Replace(s, "\treturn p, nil\n", "\tvdep__.OnPool(p.Close)\n\treturn p, nil\n", 1)
			}
		}
		rel, _ := filepath.Rel(dir, src)
		dst := filepath.Join(root, rel)
		os.MkdirAll(filepath.Dir(dst), 0o755)
		return os.WriteFile(dst, []byte(s), 0o644)
	})
	if err != nil {
		fatal(err)
	}
	fmt.Printf("replace %s => %s\n", dep, root)
}

func fatal(err error) { fmt.Fprintln(os.Stderr, "instr:", err); os.Exit(3) }

func rewrite(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	var tags []string
	for _, l := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(l, "package ") {
			break
		}
		if strings.HasPrefix(l, "//go:build") || strings.HasPrefix(l, "// +build") {
			tags = append(tags, l)
		}
	}
	hasFunc := false
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			// function literals in package variables
			ast.Inspect(d, func(n ast.Node) bool {
				if fl, ok := n.(*ast.FuncLit); ok {
					hasFunc = true
					fl.Body.List = block(fl.Body.List)
					return false
				}
				return true
			})
			continue
		}
		if fd.Body != nil && fd.Name.Name != "init" {
			hasFunc = true
			fd.Body.List = block(fd.Body.List)
		}
	}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			if is.Path.Value == `"sync"` {
				if is.Name == nil {
					is.Name = ast.NewIdent("sync")
				}
				is.Path.Value = `"` + base + `/vsched/vsync"`
			}
		}
	}
	if hasFunc {
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent("vsched__"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + base + `/vsched"`}}}}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
	}
	var buf bytes.Buffer
	for _, t := range tags {
		buf.WriteString(t + "\n")
	}
	if len(tags) > 0 {
		buf.WriteString("\n")
	}
	f.Comments = nil
	if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func call(name string) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent(name)}}}
}

func deferCall(name string) ast.Stmt {
	return &ast.DeferStmt{Call: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent(name)}}}
}

// block rewrites a statement list.
func block(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		switch s.(type) {
		case *ast.DeclStmt, *ast.EmptyStmt, *ast.BranchStmt:
		default:
			out = append(out, call("Y"))
		}
		out = append(out, stmt(s))
	}
	return out
}

func stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.GoStmt:
		return goStmt(x)
	case *ast.LabeledStmt:
		x.Stmt = stmt(x.Stmt)
		return x
	case *ast.BlockStmt:
		x.List = block(x.List)
		return x
	}
	// rewrite nested blocks
	switch x := s.(type) {
	case *ast.IfStmt:
		lits(x.Init)
		lits(x.Cond)
		x.Body.List = block(x.Body.List)
		if x.Else != nil {
			x.Else = stmt(x.Else)
		}
	case *ast.ForStmt:
		lits(x.Init)
		lits(x.Cond)
		lits(x.Post)
		x.Body.List = block(x.Body.List)
	case *ast.RangeStmt:
		lits(x.X)
		x.Body.List = block(x.Body.List)
	case *ast.SwitchStmt:
		lits(x.Init)
		lits(x.Tag)
		clauses(x.Body)
	case *ast.TypeSwitchStmt:
		lits(x.Init)
		lits(x.Assign)
		clauses(x.Body)
	case *ast.SelectStmt:
		clauses(x.Body)
	default:
		lits(s)
	}
	return s
}

func clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch y := c.(type) {
		case *ast.CaseClause:
			for _, e := range y.List {
				lits(e)
			}
			y.Body = block(y.Body)
		case *ast.CommClause:
			y.Body = block(y.Body)
		}
	}
}

// lits rewrites function literals inside an expression or simple statement.
func lits(n ast.Node) {
	if n == nil {
		return
	}
	switch v := n.(type) {
	case ast.Stmt:
		if v == nil {
			return
		}
	case ast.Expr:
		if v == nil {
			return
		}
	}
	ast.Inspect(n, func(m ast.Node) bool {
		if fl, ok := m.(*ast.FuncLit); ok {
			fl.Body.List = block(fl.Body.List)
			return false
		}
		return true
	})
}

func goStmt(g *ast.GoStmt) ast.Stmt {
	for _, a := range g.Call.Args {
		lits(a)
	}
	if fl, ok := g.Call.Fun.(*ast.FuncLit); ok {
		fl.Body.List = append([]ast.Stmt{deferCall("Recover")}, block(fl.Body.List)...)
		return g
	}
	// { f := fun; a0 := arg0; go func(){ defer Recover(); f(a0) }() }
	var pre []ast.Stmt
	def := func(n string, e ast.Expr) ast.Expr {
		id := ast.NewIdent(n)
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(n)
	}
	fun := def("vsF__", g.Call.Fun)
	var args []ast.Expr
	for i, a := range g.Call.Args {
		if _, lit := a.(*ast.BasicLit); lit {
			args = append(args, a)
			continue
		}
		if id, ok := a.(*ast.Ident); ok && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
			args = append(args, a)
			continue
		}
		args = append(args, def(fmt.Sprintf("vsA%d__", i), a))
	}
	c := &ast.CallExpr{Fun: fun, Args: args}
	if g.Call.Ellipsis.IsValid() {
		c.Ellipsis = 1
	}
	body := []ast.Stmt{deferCall("Recover"), call("Y"), &ast.ExprStmt{X: c}}
	pre = append(pre, &ast.GoStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}}})
	return &ast.BlockStmt{List: pre}
}
