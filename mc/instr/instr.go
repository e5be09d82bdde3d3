// Package instr writes copies of the simulator's sources with a scheduling
// point before every statement, and a build overlay that uses them.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

const hook = `package verifsched

// Hook is called at every scheduling point: level 1 at the start of a
// function, 0 before every other statement.
var Hook func(level int)

// Wait is called when a lock is taken by another simulation.
var Wait func()

// Acquire takes a lock, letting the scheduler know whenever it is not free.
func Acquire(lock func(), try func() bool) {
	if Wait == nil {
		lock()
		return
	}
	for !try() {
		Wait()
	}
}

func Point(level int) {
	if Hook != nil {
		Hook(level)
	}
}
`

// Overlay instruments every non-test Go file under root/lib and returns the overlay file.
// With locks set, calls of Lock and RLock go through the scheduler.
func Overlay(root, tmp string, locks bool) (string, int, error) {
	rep := map[string]string{}
	h := filepath.Join(tmp, "verifsched.go")
	if err := os.WriteFile(h, []byte(hook), 0o644); err != nil {
		return "", 0, err
	}
	rep[filepath.Join(root, "lib/verifsched/verifsched.go")] = h
	n := 0
	err := filepath.Walk(filepath.Join(root, "lib"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && (fi.Name() == "testdata" || strings.HasPrefix(fi.Name(), ".")) {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, k, err := file(p, locks)
		if err != nil {
			return fmt.Errorf("%s: %v", p, err)
		}
		if k == 0 {
			return nil
		}
		n += k
		o := filepath.Join(tmp, fmt.Sprintf("i%d_%s", len(rep), filepath.Base(p)))
		rep[p] = o
		return os.WriteFile(o, src, 0o644)
	})
	if err != nil {
		return "", 0, err
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	o := filepath.Join(tmp, "overlay.json")
	return o, n, os.WriteFile(o, b, 0o644)
}

func point(level string) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifsched"), Sel: ast.NewIdent("Point")},
		Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: level}}}}
}

// file returns the instrumented source and the number of points in it.
func file(p string, locks bool) ([]byte, int, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, p, nil, 0) // comments dropped: none of them matters to these files' meaning
	if err != nil {
		return nil, 0, err
	}
	raw, err := os.ReadFile(p)
	if err != nil {
		return nil, 0, err
	}
	for _, l := range strings.Split(string(raw), "\n") {
		if strings.HasPrefix(l, "//go:") || strings.HasPrefix(l, "// +build") || strings.HasPrefix(l, "import \"C\"") {
			return nil, 0, nil // directives: leave the file alone
		}
	}
	if locks {
		ast.Inspect(f, func(x ast.Node) bool {
			e, ok := x.(*ast.ExprStmt)
			if !ok {
				return true
			}
			c, ok := e.X.(*ast.CallExpr)
			if !ok || len(c.Args) != 0 {
				return true
			}
			sel, ok := c.Fun.(*ast.SelectorExpr)
			if !ok || sel.Sel.Name != "Lock" && sel.Sel.Name != "RLock" {
				return true
			}
			try := &ast.SelectorExpr{X: sel.X, Sel: ast.NewIdent("Try" + sel.Sel.Name)}
			e.X = &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifsched"), Sel: ast.NewIdent("Acquire")}, Args: []ast.Expr{sel, try}}
			return false
		})
	}
	n := 0
	put := func(list []ast.Stmt, fn bool) []ast.Stmt {
		var out []ast.Stmt
		for i, s := range list {
			lvl := "0"
			if fn && i == 0 {
				lvl = "1"
			}
			out = append(out, point(lvl), s)
			n++
		}
		return out
	}
	bodies := map[*ast.BlockStmt]bool{} // function bodies, and switch bodies, which hold clauses
	skip := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.FuncDecl:
			if v.Body != nil {
				bodies[v.Body] = true
			}
		case *ast.FuncLit:
			bodies[v.Body] = true
		case *ast.SwitchStmt:
			skip[v.Body] = true
		case *ast.TypeSwitchStmt:
			skip[v.Body] = true
		case *ast.SelectStmt:
			skip[v.Body] = true
		}
		return true
	})
	ast.Inspect(f, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.BlockStmt:
			if !skip[v] {
				v.List = put(v.List, bodies[v])
			}
		case *ast.CaseClause:
			v.Body = put(v.Body, false)
		case *ast.CommClause:
			v.Body = put(v.Body, false)
		}
		return true
	})
	if n == 0 {
		return nil, 0, nil
	}
	var b bytes.Buffer
	if err := format.Node(&b, fs, f); err != nil {
		return nil, 0, err
	}
	// the import is added as text, right after the package clause
	src := b.String()
	i := strings.Index(src, "package "+f.Name.Name)
	j := i + len("package "+f.Name.Name)
	return []byte(src[:j] + "\n\nimport \"uniswap-simulator/lib/verifsched\"\n" + src[j:]), n, nil
}
