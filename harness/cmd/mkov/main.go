// mkov writes a build overlay with instrumented versions of /repo's packages.
//
//	mkov -repo /repo -out DIR -tune -vtime pkg...
//
// The rewriting works on the syntax tree of whatever the files contain now:
//
//	-tune   search thresholds (restart, tick and garbage collection intervals)
//	        are scaled down, so that small inputs exercise the maintenance code
//	-vtime  the clock (package time) is replaced by a controllable one
//	-vrand  random choices (package math/rand) are taken from a script
//	-vos    file system operations (packages os and io/ioutil) are counted and
//	        can be made to fail
//	-sched  goroutines, channels, timers and locks go through the controlled
//	        scheduler (packages vsched, vstime, vsync, vatomic)
//
// What is not found is left alone.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var (
	repo  = flag.String("repo", "/repo", "")
	out   = flag.String("out", "", "")
	tune  = flag.String("tune", "", "comma separated NAME=VALUE for constants and OLD=NEW for integer literals")
	vtime = flag.Bool("vtime", false, "")
	vrand = flag.Bool("vrand", false, "")
	vfs   = flag.Bool("vos", false, "")
	sched = flag.Bool("sched", false, "")
	shims = flag.String("shims", "", "directory with shim packages to place under the module root (one per sub-directory)")
)

func die(e error) {
	if e != nil {
		fmt.Fprintln(os.Stderr, "mkov:", e)
		os.Exit(2)
	}
}

func main() {
	flag.Parse()
	repl := map[string]string{}
	tn := map[string]string{}
	for _, kv := range strings.Split(*tune, ",") {
		if i := strings.IndexByte(kv, '='); i > 0 {
			tn[kv[:i]] = kv[i+1:]
		}
	}
	die(os.MkdirAll(*out, 0o755))
	if *shims != "" {
		ds, e := os.ReadDir(*shims)
		die(e)
		for _, d := range ds {
			fs, e := os.ReadDir(filepath.Join(*shims, d.Name()))
			die(e)
			for _, f := range fs {
				to := filepath.Join(*repo, d.Name(), f.Name())
				if d.Name() == "root" {
					to = filepath.Join(*repo, f.Name())
				}
				repl[to] = filepath.Join(*shims, d.Name(), f.Name())
			}
		}
	}
	hits := map[string]int{}
	if *sched {
		die(schedAll(flag.Args(), tn, hits, repl))
	}
	for _, pkg := range flag.Args() {
		if *sched {
			break
		}
		dir := filepath.Join(*repo, pkg)
		es, e := os.ReadDir(dir)
		die(e)
		for _, de := range es {
			n := de.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			src := filepath.Join(dir, n)
			fset := token.NewFileSet()
			f, e := parser.ParseFile(fset, src, nil, parser.ParseComments)
			if e != nil {
				// let the compiler report it
				continue
			}
			changed := false
			if len(tn) > 0 && tuneFile(f, tn, hits) {
				changed = true
			}
			if *vtime && timeFile(f) {
				changed = true
			}
			if *vfs && swapImport(f, "os", "vos", "os") {
				changed = true
			}
			if *vfs && swapImport(f, "io/ioutil", "vioutil", "ioutil") {
				changed = true
			}
			if *vrand && swapImport(f, "math/rand", "vrand", "rand") {
				changed = true
			}
			if !changed {
				continue
			}
			var buf bytes.Buffer
			die(format.Node(&buf, fset, f))
			dst := filepath.Join(*out, strings.ReplaceAll(pkg, "/", "_")+"_"+n)
			if old, e := os.ReadFile(dst); e != nil || !bytes.Equal(old, buf.Bytes()) {
				die(os.WriteFile(dst, buf.Bytes(), 0o644))
			}
			repl[src] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	hb, _ := json.Marshal(hits)
	die(os.WriteFile(filepath.Join(*out, "hits.json"), hb, 0o644))
}

// tuneFile changes constant values by name and integer literals by value.
func tuneFile(f *ast.File, tn map[string]string, hits map[string]int) bool {
	ch := false
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || (g.Tok != token.CONST && g.Tok != token.VAR) {
			continue
		}
		for _, s := range g.Specs {
			v, ok := s.(*ast.ValueSpec)
			if !ok {
				continue
			}
			for i, n := range v.Names {
				if nv, ok := tn[n.Name]; ok && i < len(v.Values) {
					v.Values[i] = &ast.BasicLit{Kind: token.INT, Value: nv, ValuePos: v.Values[i].Pos()}
					hits[n.Name]++
					ch = true
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if b, ok := n.(*ast.BasicLit); ok && b.Kind == token.INT {
			if nv, ok := tn[b.Value]; ok {
				b.Value = nv
				hits[b.Value]++
				ch = true
			}
		}
		return true
	})
	return ch
}

// timeFile replaces the import of "time" by the virtual clock package.
func timeFile(f *ast.File) bool { return swapImport(f, "time", "vtime", "time") }

// swapImport replaces an import by one of the shim packages.
func swapImport(f *ast.File, from, shim, name string) bool {
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == from {
			im.Path.Value = strconv.Quote("github.com/go-air/gini/" + shim)
			if im.Name == nil {
				im.Name = ast.NewIdent(name)
			}
			return true
		}
	}
	return false
}
