package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
)

// schedAll rewrites whole packages onto the controlled scheduler.  Types are
// known, so every use of channels is found however it is written.
func schedAll(pkgs []string, tn map[string]string, hits map[string]int, repl map[string]string) error {
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Export"}
	for _, p := range pkgs {
		args = append(args, "./"+p)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	cmd.Stderr = os.Stderr
	b, e := cmd.Output()
	if e != nil {
		return fmt.Errorf("go list: %v", e)
	}
	exp := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var x struct{ ImportPath, Export string }
		if e := dec.Decode(&x); e == io.EOF {
			break
		} else if e != nil {
			return e
		}
		exp[x.ImportPath] = x.Export
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, pkg := range pkgs {
		dir := filepath.Join(*repo, pkg)
		cmd := exec.Command("go", "list", "-json=GoFiles,ImportPath", "./"+pkg)
		cmd.Dir = *repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
		b, e := cmd.Output()
		if e != nil {
			return e
		}
		var x struct {
			GoFiles    []string
			ImportPath string
		}
		if e := json.Unmarshal(b, &x); e != nil {
			return e
		}
		var fs []*ast.File
		var srcs [][]byte
		for _, n := range x.GoFiles {
			src, e := os.ReadFile(filepath.Join(dir, n))
			if e != nil {
				return e
			}
			f, e := parser.ParseFile(fset, filepath.Join(dir, n), src, parser.SkipObjectResolution)
			if e != nil {
				return e
			}
			fs = append(fs, f)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := &types.Config{Importer: imp, Error: func(error) {}}
		if _, e := conf.Check(x.ImportPath, fset, fs, info); e != nil {
			return fmt.Errorf("%s: %v", pkg, e)
		}
		for i, f := range fs {
			r := &rewriter{info: info, two: map[ast.Expr]bool{}, mine: map[*ast.BlockStmt]bool{}, orig: map[ast.Expr]types.Type{}}
			if len(tn) > 0 {
				tuneFile(f, tn, hits)
			}
			r.rewrite(reflect.ValueOf(f))
			if r.err != nil {
				return fmt.Errorf("%s: %v", x.GoFiles[i], r.err)
			}
			swapImport(f, "time", "vstime", "time")
			swapImport(f, "sync", "vsync", "sync")
			swapImport(f, "sync/atomic", "vatomic", "atomic")
			if pkg == "crisp" {
				swapImport(f, "net", "vnet", "net")
				swapImport(f, "os", "vnetos", "os")
				swapImport(f, "runtime", "vruntime", "runtime")
				swapImport(f, "log", "vlog", "log")
			}
			if *vrand {
				swapImport(f, "math/rand", "vrand", "rand")
			}
			if r.used {
				addImport(f, "github.com/go-air/gini/vsched")
			}
			var buf bytes.Buffer
			fmt.Fprintf(&buf, "//go:build %s\n\n", buildLine(srcs[i]))
			if e := format.Node(&buf, fset, f); e != nil {
				return e
			}
			dst := filepath.Join(*out, strings.ReplaceAll(pkg, "/", "_")+"_"+x.GoFiles[i])
			if old, e := os.ReadFile(dst); e != nil || !bytes.Equal(old, buf.Bytes()) {
				if e := os.WriteFile(dst, buf.Bytes(), 0o644); e != nil {
					return e
				}
			}
			repl[filepath.Join(dir, x.GoFiles[i])] = dst
		}
	}
	return nil
}

// buildLine is the build constraint of the rewritten file.
func buildLine(src []byte) string {
	for _, l := range strings.Split(string(src), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "package ") {
			break
		}
		if constraint.IsGoBuild(l) {
			if x, e := constraint.Parse(l); e == nil {
				return "(" + x.String() + ") && go1.21"
			}
		}
	}
	return "go1.21"
}

func addImport(f *ast.File, path string) {
	sp := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", path)}}
	f.Imports = append(f.Imports, sp)
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{sp}}}, f.Decls...)
}

type rewriter struct {
	info *types.Info
	two  map[ast.Expr]bool // receives used with two results
	mine map[*ast.BlockStmt]bool
	orig map[ast.Expr]types.Type
	used bool
	n    int
	err  error
}

func (r *rewriter) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("vs%s%d", p, r.n))
}

func vs(n string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent(n)}
}

func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func meth(x ast.Expr, n string, a ...ast.Expr) *ast.CallExpr {
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
	default:
		x = &ast.ParenExpr{X: x}
	}
	return call(&ast.SelectorExpr{X: x, Sel: ast.NewIdent(n)}, a...)
}
func define(l, x ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{x}}
}

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.info.Types[e].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) builtin(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

var nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()

// rewrite walks the tree bottom-up and replaces nodes in place.
func (r *rewriter) rewrite(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		nv := r.node(v.Elem())
		if nv.IsValid() && v.CanSet() {
			v.Set(nv)
		}
	case reflect.Ptr:
		if v.IsNil() || !v.Type().Implements(nodeT) {
			return
		}
		nv := r.node(v)
		if nv.IsValid() && v.CanSet() && nv.Type().AssignableTo(v.Type()) {
			v.Set(nv)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.rewrite(v.Index(i))
		}
	}
}

func (r *rewriter) node(p reflect.Value) reflect.Value {
	if p.Kind() != reflect.Ptr || p.IsNil() {
		return p
	}
	n, ok := p.Interface().(ast.Node)
	if !ok {
		return p
	}
	switch x := n.(type) {
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			r.two[unparen(x.Rhs[0])] = true
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			r.two[unparen(x.Values[0])] = true
		}
	case *ast.SelectStmt:
		// children handled there
		return reflect.ValueOf(r.selectStmt(x))
	}
	// facts that need the original children
	var rangeChan, chanArg bool
	var bi string
	switch x := n.(type) {
	case *ast.RangeStmt:
		rangeChan = r.isChan(x.X)
	case *ast.CallExpr:
		bi = r.builtin(x.Fun)
		if len(x.Args) > 0 {
			chanArg = r.isChan(x.Args[0])
		}
	}
	var goArgs []bool
	if g, ok := n.(*ast.GoStmt); ok {
		for _, a := range g.Call.Args {
			tv := r.info.Types[a]
			goArgs = append(goArgs, tv.Value != nil || tv.IsNil())
		}
	}
	s := p.Elem()
	for i := 0; i < s.NumField(); i++ {
		f := s.Field(i)
		switch f.Type().String() {
		case "*ast.Object", "*ast.Scope", "*ast.CommentGroup", "[]*ast.CommentGroup", "[]*ast.ImportSpec":
			continue
		}
		r.rewrite(f)
	}
	switch x := n.(type) {
	case *ast.ChanType:
		r.used = true
		return reflect.ValueOf(&ast.StarExpr{X: &ast.IndexExpr{X: vs("Chan"), Index: x.Value}})
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			m := "Recv"
			if r.two[x] {
				m = "Recv2"
			}
			return reflect.ValueOf(meth(x.X, m))
		}
	case *ast.SendStmt:
		return reflect.ValueOf(&ast.ExprStmt{X: meth(x.Chan, "Send", x.Value)})
	case *ast.CallExpr:
		if !chanArg {
			break
		}
		switch bi {
		case "close":
			return reflect.ValueOf(meth(x.Args[0], "Close"))
		case "len":
			return reflect.ValueOf(meth(x.Args[0], "Len"))
		case "cap":
			return reflect.ValueOf(meth(x.Args[0], "Cap"))
		case "make":
			st, ok := unparen(x.Args[0]).(*ast.StarExpr)
			if !ok {
				r.err = fmt.Errorf("make of a named channel type")
				break
			}
			ix, ok := st.X.(*ast.IndexExpr)
			if !ok {
				r.err = fmt.Errorf("make of a named channel type")
				break
			}
			var size ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
			if len(x.Args) > 1 {
				size = call(ast.NewIdent("int"), x.Args[1])
			}
			r.used = true
			return reflect.ValueOf(call(&ast.IndexExpr{X: vs("NewChan"), Index: ix.Index}, size))
		}
	case *ast.RangeStmt:
		if rangeChan {
			return reflect.ValueOf(r.rangeStmt(x))
		}
	case *ast.GoStmt:
		return reflect.ValueOf(r.goStmt(x, goArgs))
	case *ast.LabeledStmt:
		if b, ok := x.Stmt.(*ast.BlockStmt); ok && r.mine[b] {
			last := len(b.List) - 1
			x.Stmt = b.List[last]
			b.List[last] = x
			return reflect.ValueOf(b)
		}
	}
	return p
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) expr(e *ast.Expr) { r.rewrite(reflect.ValueOf(e).Elem()) }

func (r *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	r.used = true
	b := &ast.BlockStmt{}
	r.mine[b] = true
	if len(x.Body.List) == 0 {
		b.List = append(b.List, &ast.ExprStmt{X: call(vs("Block"))},
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})})
		return b
	}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var cs []ast.Expr
	hasDef := false
	idx := 0
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		out := &ast.CaseClause{}
		var first ast.Stmt
		switch c := cc.Comm.(type) {
		case nil:
			hasDef = true
		case *ast.SendStmt:
			r.expr(&c.Chan)
			r.expr(&c.Value)
			t := r.tmp("c")
			b.List = append(b.List, define(t, call(vs("SendCase"), c.Chan, c.Value)))
			cs = append(cs, t)
		case *ast.ExprStmt:
			u := unparen(c.X).(*ast.UnaryExpr)
			r.expr(&u.X)
			t := r.tmp("c")
			b.List = append(b.List, define(t, call(vs("RecvCase"), u.X)))
			cs = append(cs, t)
		case *ast.AssignStmt:
			u := unparen(c.Rhs[0]).(*ast.UnaryExpr)
			r.expr(&u.X)
			for i := range c.Lhs {
				r.expr(&c.Lhs[i])
			}
			t := r.tmp("c")
			b.List = append(b.List, define(t, call(vs("RecvCase"), u.X)))
			cs = append(cs, t)
			m := "Get"
			if len(c.Lhs) == 2 {
				m = "Get2"
			}
			first = &ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: []ast.Expr{meth(t, m)}}
		}
		if cc.Comm != nil {
			out.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(idx)}}
			idx++
		}
		for i := range cc.Body {
			r.rewrite(reflect.ValueOf(&cc.Body[i]).Elem())
		}
		if first != nil {
			out.Body = append(out.Body, first)
		}
		out.Body = append(out.Body, cc.Body...)
		sw.Body.List = append(sw.Body.List, out)
	}
	if !hasDef {
		// keeps terminating selects terminating
		sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil
	}
	sw.Tag = call(vs("Select"), append([]ast.Expr{ast.NewIdent(fmt.Sprint(hasDef))}, cs...)...)
	b.List = append(b.List, sw)
	return b
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	r.used = true
	b := &ast.BlockStmt{}
	r.mine[b] = true
	c, ok := r.tmp("c"), r.tmp("ok")
	v := r.tmp("v")
	b.List = append(b.List, define(c, x.X))
	body := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{meth(c, "Recv2")}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
	}
	if x.Key != nil {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{v}})
	} else {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
	}
	x.Body.List = append(body, x.Body.List...)
	b.List = append(b.List, &ast.ForStmt{Body: x.Body})
	return b
}

func (r *rewriter) goStmt(x *ast.GoStmt, konst []bool) ast.Stmt {
	r.used = true
	if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: call(vs("Go"), fl)}
		}
	}
	b := &ast.BlockStmt{}
	if _, ok := r.info.Uses[identOf(x.Call.Fun)].(*types.Builtin); !ok {
		f := r.tmp("f")
		b.List = append(b.List, define(f, x.Call.Fun))
		x.Call.Fun = f
	}
	for i, a := range x.Call.Args {
		if i < len(konst) && konst[i] {
			continue
		}
		t := r.tmp("a")
		b.List = append(b.List, define(t, a))
		x.Call.Args[i] = t
	}
	b.List = append(b.List, &ast.ExprStmt{X: call(vs("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: x.Call}}}})})
	return b
}

func identOf(e ast.Expr) *ast.Ident {
	id, _ := e.(*ast.Ident)
	return id
}
