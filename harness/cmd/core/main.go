// core decides the solver properties: C01-C08, C10 and C13.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/dimacs"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"

	"vh/eng"
	"vh/sat"
)

var _ = strings.Join
var _ = dimacs.ReadCnf

func small() *gini.Gini { return gini.NewVc(3, 3) }

func mkWorld(nv int, tab [][]int) *sat.World { return sat.NewWorld(nv, tab, small(), nil) }

// seqs enumerates all op sequences of length d whose last op is in last.
func seqs(alpha []int32, last map[int]bool, d int, prefix []int32, yield func(c []int32) bool) bool {
	buf := append([]int32{}, prefix...)
	n := len(buf)
	buf = append(buf, make([]int32, d)...)
	var rec func(i int) bool
	rec = func(i int) bool {
		for _, op := range alpha {
			if i == d-1 && last != nil && !last[int(op>>16)] {
				continue
			}
			buf[n+i] = op
			if i == d-1 {
				if !yield(buf) {
					return false
				}
			} else if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

// runOps runs a script in lock step with the reference.  A script that asks
// for an operation outside the API's preconditions ends there (its prefix is
// a script of its own).
func runOps(w *sat.World, ops []int32, cov *eng.Cov) error {
	for _, op := range ops {
		if !w.Legal(op) {
			cov.Trans += w.Trans
			cov.Inc("cut_at_precondition")
			return nil
		}
		if e := w.Exec(op); e != nil {
			return e
		}
		eng.State(w.Hash())
		if op>>16 == sat.OpSolve || op>>16 == sat.OpTest {
			if r, ok := w.LastRes(); ok {
				cov.Inc(fmt.Sprintf("answers_%d", r))
			}
		}
	}
	cov.Trans += w.Trans
	cov.Traces++
	cov.Nontriv++
	return nil
}

func op(k int) int32 { return sat.Mk(k, 0) }

func adds(tab [][]int) (r []int32) {
	for i := range tab {
		r = append(r, sat.Mk(sat.OpAdd, i))
	}
	return
}
func asms(ls ...int) (r []int32) {
	for _, l := range ls {
		r = append(r, sat.MkLit(sat.OpAssume, l))
	}
	return
}
func cat(xs ...[]int32) (r []int32) {
	for _, x := range xs {
		r = append(r, x...)
	}
	return
}

var queries = map[int]bool{sat.OpSolve: true, sat.OpTest: true, sat.OpUntest: true, sat.OpWhy: true,
	sat.OpReasons: true, sat.OpWrite: true, sat.OpTry: true, sat.OpGoSolve: true, sat.OpLit: true, sat.OpCopy: true, sat.OpAct: true, sat.OpActLit: true}

var solveOp = []int32{sat.Mk(sat.OpSolve, 0)}
var testOps = []int32{sat.Mk(sat.OpTest, 0), sat.Mk(sat.OpUntest, 0)}
var whyOp = []int32{sat.Mk(sat.OpWhy, 0)}
var reasOp = []int32{sat.Mk(sat.OpReasons, 0)}

// hist: every op sequence over alpha up to a depth, after each prefix.
type histSpec struct {
	name     string
	nv       int
	tab      [][]int
	prefixes [][]int32
	alpha    []int32
	dq, dt   int
	last     map[int]bool
	mk       func(nv int, tab [][]int) *sat.World
	complete bool
	budget   time.Duration
	after    func(w *sat.World) error
	wrap     func(h histSpec, c []int32, cov *eng.Cov) error
}

func (h histSpec) part() *eng.Part {
	if h.prefixes == nil {
		h.prefixes = [][]int32{nil}
	}
	if h.last == nil {
		h.last = queries
	}
	mk := h.mk
	if mk == nil {
		mk = mkWorld
	}
	return &eng.Part{
		Name:   h.name,
		Desc:   fmt.Sprintf("all sequences of up to %d (thorough %d) operations over %d operations {%s}, after each of %d prefixes; ends in a query", h.dq, h.dt, len(h.alpha), sat.ShowOps(h.tab, h.alpha), len(h.prefixes)),
		Budget: h.budget,
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for d := 1; d <= t.Pick(h.dq, h.dt); d++ {
				for _, p := range h.prefixes {
					if !seqs(h.alpha, h.last, d, p, yield) {
						return
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			if h.wrap != nil {
				return h.wrap(h, c, cov)
			}
			w := mk(h.nv, h.tab)
			w.Complete = h.complete
			e := runOps(w, c, cov)
			if e == nil && h.after != nil {
				e = h.after(w)
			}
			return e
		},
		Show: func(c []int32) string { return sat.ShowOps(h.tab, c) },
	}
}

// bases turns base formulas into a clause table and add-prefixes.
func bases(tab [][]int, bs [][][]int) ([][]int, [][]int32) {
	tab = append([][]int{}, tab...)
	var pre [][]int32
	for _, b := range bs {
		var p []int32
		for _, c := range b {
			p = append(p, sat.Mk(sat.OpAdd, len(tab)))
			tab = append(tab, c)
		}
		pre = append(pre, p)
	}
	return tab, pre
}

var t2 = [][]int{{}, {1}, {-1}, {2}, {1, 2}, {-1, 2}, {1, -2}, {-1, -2}}
var t3 = [][]int{{1, 2}, {-1, 2}, {1, -2}, {-1, -2, 3}, {-3, 1}, {-3, -1}}
var t3u = [][]int{{1, 2, 3}, {-1, 2, 3}, {1, -2, 3}, {-1, -2, 3}, {-3, 2}, {-2}, {1, -1}, {3, 3, 1}}

// formulas with interesting implication structure over 5 variables
var bases5 = [][][]int{
	{{1, 2}, {-1, 2}, {1, -2}},
	{{1, 2, 3}, {-1, 2, 3}, {1, -2, 3}, {-1, -2, 4}, {-4, 3}},
	{{-1, 2}, {-2, 3}, {-3, 4}, {-4, -1, 5}},
	{{1, 2, 3}, {-1, 4, 5}, {-2, 4, -5}, {-3, -4, 5}, {-3, -4, -5}, {1, -4}},
	{{1, 2, 3}, {1, 2, -3}, {1, -2, 3}, {1, -2, -3}, {-1, 4, 5}, {-1, -4, 5}},
	{{1, 3, 4}, {1, 3, -4}, {1, -3, 4}, {1, -3, -4, 2}, {-2, 5}, {-2, -5, 3}},
	{{-1, -2, 3}, {-1, -2, -3, 4}, {-1, -2, -3, -4}, {-3, -4, 5}, {-5, 1}},
	{{-1, -2, -3, -4, -5}, {1, 2}, {3, 4}, {4, 5}, {-4, 1, 3}, {-4, -1, 5}},
	{{4, 5}, {4, -5}, {-4, 3}, {-3, -1, 2}, {-3, -1, -2}},
	{{1, 4, 5}, {1, 4, -5}, {1, -4, 5}, {1, -4, -5}, {2, 4, 5}, {2, -4, 3}, {-3, 5, 2}},
}

// famPart runs a procedure on every formula of every family.
func famPart(name, what string, fams []*sat.Family, run func(nv int, cs [][]int, cov *eng.Cov) error, thoroughOnly ...*sat.Family) *eng.Part {
	nq := len(fams)
	fams = append(fams[:nq:nq], thoroughOnly...)
	desc := what + "; families " + famNames(fams[:nq])
	if len(fams) > nq {
		desc += "; thorough also " + famNames(fams[nq:])
	}
	return &eng.Part{
		Name: name,
		Desc: desc,
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			buf := make([]int32, 0, 64)
			for fi, f := range fams[:t.Pick(nq, len(fams))] {
				if !f.Enum(t == eng.Thorough, func(p []int32) bool {
					buf = append(append(buf[:0], int32(fi)), p...)
					return yield(buf)
				}) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			f := fams[c[0]]
			nv, cs := f.Build(c[1:])
			h := eng.NewH()
			for _, x := range c {
				h.I(int(x))
			}
			eng.State(uint64(h))
			cov.Inc(f.Name)
			return run(nv, cs, cov)
		},
		Show: func(c []int32) string { return fams[c[0]].ShowP(c[1:]) },
	}
}

func famNames(fs []*sat.Family) string {
	var s []string
	for _, f := range fs {
		s = append(s, fmt.Sprintf("%s(%d)", f.Name, f.Count(false)))
	}
	return strings.Join(s, " ")
}

func pickFams(names ...string) (out []*sat.Family) {
	all := sat.Families()
	for _, n := range names {
		out = append(out, sat.FamByName(all, n))
	}
	return
}

// script is a tiny helper: run literal ops against a world.
type script struct {
	w *sat.World
}

func (s script) do(ops ...int32) error {
	for _, o := range ops {
		if !s.w.Legal(o) {
			continue
		}
		if e := s.w.Exec(o); e != nil {
			return e
		}
		eng.State(s.w.Hash())
	}
	return nil
}

func addAll(w *sat.World, cs [][]int) error {
	for i := range cs {
		if e := w.Exec(sat.Mk(sat.OpAdd, i)); e != nil {
			return e
		}
	}
	return nil
}

// solveFresh: fresh solver, all clauses, given assumptions, one Solve.
func solveFresh(nv int, cs [][]int, g *gini.Gini, vmap []int, as []int, cov *eng.Cov) error {
	w := sat.NewWorld(nv, cs, g, vmap)
	s := script{w}
	if e := addAll(w, cs); e != nil {
		return e
	}
	for _, a := range as {
		if e := s.do(sat.MkLit(sat.OpAssume, a)); e != nil {
			return e
		}
	}
	e := s.do(op(sat.OpSolve))
	if e == nil {
		r, _ := w.LastRes()
		cov.Inc(fmt.Sprintf("answers_%d", r))
		if r == -1 {
			e = s.do(op(sat.OpWhy))
		}
	}
	cov.Trans += w.Trans
	cov.Traces++
	return e
}

func singles(nv int) (out [][]int) {
	for v := 1; v <= nv; v++ {
		out = append(out, []int{v}, []int{-v})
	}
	return
}

func cubes(nv int) (out [][]int) {
	total := 1
	for i := 0; i < nv; i++ {
		total *= 3
	}
	for x := 0; x < total; x++ {
		y := x
		var c []int
		for v := 1; v <= nv; v++ {
			switch y % 3 {
			case 1:
				c = append(c, v)
			case 2:
				c = append(c, -v)
			}
			y /= 3
		}
		out = append(out, c)
	}
	return
}

func main() {
	eng.Main(c01(), c02(), c03(), c04(), c05(), c06(), c07(), c08(), c10(), c13(), c20())
}

func c01() *eng.Prop {
	lib := pickFams("cls4", "two4", "three4", "long5", "long7", "php32", "php43", "php53", "xor5", "xor6", "col4x3", "col5x3", "col5x2", "circ4", "circ5", "chain6")
	return &eng.Prop{ID: "C01", Level: "model_checking",
		Notes: []string{"reference: explicit set of all satisfying assignments (truth table)", "formulas above the stated bounds are not covered"},
		Parts: []*eng.Part{
			famPart("cls3", "every clause set over 3 variables up to the size bound, fresh solver, with every one of the 27 assumption cubes", pickFams("cls3"),
				func(nv int, cs [][]int, cov *eng.Cov) error {
					for _, as := range cubes(nv) {
						if e := solveFresh(nv, cs, small(), nil, as, cov); e != nil {
							return fmt.Errorf("assumptions %v: %v", as, e)
						}
					}
					return nil
				}),
			famPart("fams", "fresh solver, no assumption and each single literal assumed", lib,
				func(nv int, cs [][]int, cov *eng.Cov) error {
					if e := solveFresh(nv, cs, small(), nil, nil, cov); e != nil {
						return e
					}
					for _, as := range singles(nv) {
						if e := solveFresh(nv, cs, gini.NewVc(nv, len(cs)), nil, as, cov); e != nil {
							return fmt.Errorf("assumptions %v: %v", as, e)
						}
					}
					return nil
				}),
			presentations(),
			configs(),
			knownPart(false, 0),
		}}
}

// presentations: the same formula in every clause order and with duplicated
// and tautological literals inserted, every literal order.
func presentations() *eng.Part {
	pool := [][]int{{1, 2, 3}, {-1, 2}, {-2, 3}, {-3, -1}, {1, -2, -3}, {-1, -2, -3}, {1}, {-3}, {2, 3}, {1, -3}}
	perms := permutations(4)
	p3 := permutations(3)
	return &eng.Part{
		Name: "present",
		Desc: "every 4-clause subset of a 10-clause pool, in every clause order, times literal orders, duplicated literals and inserted tautologies (8 decorations)",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			buf := make([]int32, 0, 8)
			n := len(pool)
			for a := 0; a < n; a++ {
				for b := a + 1; b < n; b++ {
					for c := b + 1; c < n; c++ {
						for d := c + 1; d < n; d++ {
							for pi := range perms {
								for dec := 0; dec < 24; dec++ {
									buf = append(buf[:0], int32(a), int32(b), int32(c), int32(d), int32(pi), int32(dec))
									if !yield(buf) {
										return
									}
								}
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			ix := []int{int(c[0]), int(c[1]), int(c[2]), int(c[3])}
			var cs [][]int
			for k, j := range perms[c[4]] {
				cs = append(cs, decorate(pool[ix[j]], int(c[5]), k, p3))
			}
			for _, as := range [][]int{nil, {1}, {-2, 3}, {3, 3, -1}} {
				if e := solveFresh(3, cs, small(), nil, as, cov); e != nil {
					return fmt.Errorf("clauses %v assumptions %v: %v", cs, as, e)
				}
			}
			return nil
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("pool clauses %v order %d decoration %d", c[:4], c[4], c[5])
		},
	}
}

// decorate: literal order, duplicates; must keep the clause's meaning, except
// that decorations 4..7 of clause 3 replace it by a tautology plus itself.
func decorate(c []int, dec, k int, p3 [][]int) []int {
	out := make([]int, 0, 8)
	if len(c) == 3 {
		for _, j := range p3[dec%6] {
			out = append(out, c[j])
		}
	} else if dec%2 == 1 {
		for i := len(c) - 1; i >= 0; i-- {
			out = append(out, c[i])
		}
	} else {
		out = append(out, c...)
	}
	switch dec / 6 {
	case 1: // duplicate the first literal at the end
		out = append(out, out[0])
	case 2: // duplicate everything
		out = append(out, out...)
	case 3: // make one clause a tautology
		if k == 1 {
			out = append(out, -out[0])
		} else {
			out = append([]int{out[len(out)-1]}, out...)
		}
	}
	return out
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			q = append(q, p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

var vmaps = []func(i, n int) int{
	func(i, n int) int { return i },
	func(i, n int) int { return n + 1 - i },
	func(i, n int) int { return 3 * i },
	func(i, n int) int { return 37*(n-i) + 5 },
	func(i, n int) int { return 1 << uint(i+1) },
	func(i, n int) int { return 130 + i*i*i },
}

var ctors = []func() *gini.Gini{
	func() *gini.Gini { return gini.New() },
	func() *gini.Gini { return gini.NewV(1) },
	func() *gini.Gini { return gini.NewV(0) },
	func() *gini.Gini { return gini.NewVc(0, 0) },
	func() *gini.Gini { return gini.NewVc(4, 1) },
	func() *gini.Gini { return gini.NewVc(7, 40) },
	func() *gini.Gini { return gini.NewVc(64, 2) },
	func() *gini.Gini { return gini.NewV(200) },
}

func configs() *eng.Part {
	fams := pickFams("php32", "col4x3", "xor5", "long5", "circ5", "chain6")
	return &eng.Part{
		Name: "configs",
		Desc: fmt.Sprintf("every %d-th formula of families %s times %d capacity configurations times %d variable numberings", 29, famNames(fams), len(ctors), len(vmaps)),
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			k := 0
			stop := false
			for fi, f := range fams {
				f.Enum(t == eng.Thorough, func(p []int32) bool {
					k++
					if k%29 != 0 {
						return true
					}
					for ci := range ctors {
						for vi := range vmaps {
							c := append([]int32{int32(fi), int32(ci), int32(vi)}, p...)
							if !yield(c) {
								stop = true
								return false
							}
						}
					}
					return true
				})
				if stop {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			nv, cs := fams[c[0]].Build(c[3:])
			vm := make([]int, nv+1)
			for i := 1; i <= nv; i++ {
				vm[i] = vmaps[c[2]](i, nv)
			}
			for _, as := range [][]int{nil, {-1}, {2, -nv}} {
				if e := solveFresh(nv, cs, ctors[c[1]](), vm, as, cov); e != nil {
					return fmt.Errorf("configuration %d numbering %v assumptions %v: %v", c[1], vm[1:], as, e)
				}
			}
			return nil
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("configuration %d numbering %d %s", c[1], c[2], fams[c[0]].ShowP(c[3:]))
		},
	}
}

func c02() *eng.Prop {
	tab5, pre5 := bases([][]int{{-5}, {1, -3}, {-2, -4}, {3, 5, -1}, {2}}, bases5)
	// growth: variables are introduced on the way
	tg := [][]int{{1, 2}, {-2, 5}, {-5, 9}, {-1, 9}, {-9, -1}, {-9, -2}}
	grow := func(nv int, tab [][]int) *sat.World {
		// variables 1..9 mapped onto a spread that outgrows the initial capacity step by step
		vm := []int{0, 1, 2, 3, 4, 6, 7, 8, 11, 40}
		return sat.NewWorld(nv, tab, gini.NewVc(3, 3), vm)
	}
	return &eng.Prop{ID: "C02", Level: "model_checking",
		Notes: []string{"reference: explicit set of satisfying assignments of the clauses added so far"},
		Parts: []*eng.Part{
			histSpec{name: "hist2", nv: 2, tab: t2, alpha: cat(adds(t2), asms(1, -1, 2, -2), solveOp), dq: 6, dt: 7, last: map[int]bool{sat.OpSolve: true}}.part(),
			histSpec{name: "hist3", nv: 3, tab: t3, alpha: cat(adds(t3), asms(1, -2, -3), solveOp), dq: 7, dt: 8, last: map[int]bool{sat.OpSolve: true}}.part(),
			histSpec{name: "hist3u", nv: 3, tab: t3u, alpha: cat(adds(t3u), asms(-1, 2), solveOp), dq: 6, dt: 8, last: map[int]bool{sat.OpSolve: true}}.part(),
			histSpec{name: "based5", nv: 5, tab: tab5, prefixes: pre5, alpha: cat(adds(tab5[:5]), asms(1, -1, 3, -4, -5), solveOp), dq: 5, dt: 6, last: map[int]bool{sat.OpSolve: true}}.part(),
			histSpec{name: "growth", nv: 9, tab: tg, alpha: cat(adds(tg), asms(9, -2), solveOp, []int32{op(sat.OpLit), op(sat.OpTry), op(sat.OpGoSolve)}), dq: 5, dt: 7, mk: grow, last: map[int]bool{sat.OpSolve: true, sat.OpLit: true, sat.OpTry: true, sat.OpGoSolve: true}}.part(),
			incFam("incr", "clauses of each formula added one by one, Solve after each addition (plain, and with the next clause's literals negated as assumptions)", pickFams("two4", "php32", "php43", "xor5", "col4x3", "circ4", "long5", "chain6")),
			knownPart(false, 1, 5),
		}}
}

// incFam: incremental construction of every family formula with queries between.
func incFam(name, what string, fams []*sat.Family) *eng.Part {
	return famPart(name, what, fams, func(nv int, cs [][]int, cov *eng.Cov) error {
		return incremental(sat.NewWorld(nv, cs, small(), nil), cs, cov)
	})
}

func incremental(w *sat.World, cs [][]int, cov *eng.Cov) error {
	s := script{w}
	solve := func() error {
		if e := s.do(op(sat.OpSolve)); e != nil {
			return e
		}
		r, _ := w.LastRes()
		cov.Inc(fmt.Sprintf("answers_%d", r))
		return s.do(op(sat.OpWhy))
	}
	step := 1
	if len(cs) > 24 {
		step = len(cs) / 12
	}
	for i := range cs {
		if e := s.do(sat.Mk(sat.OpAdd, i)); e != nil {
			return e
		}
		if i%step != 0 && i != len(cs)-1 {
			continue
		}
		if e := solve(); e != nil {
			return e
		}
		nx := cs[(i+1)%len(cs)]
		for _, l := range nx {
			if e := s.do(sat.MkLit(sat.OpAssume, -l)); e != nil {
				return e
			}
		}
		if e := solve(); e != nil {
			return e
		}
		if r, _ := w.LastRes(); i%3 == 0 && r == 1 {
			// scopes in between
			if e := s.do(sat.MkLit(sat.OpAssume, cs[i][0]), op(sat.OpTest), op(sat.OpReasons), sat.MkLit(sat.OpAssume, -nx[0]), op(sat.OpSolve), op(sat.OpWhy), op(sat.OpUntest)); e != nil {
				return e
			}
		}
	}
	if e := solve(); e != nil {
		return e
	}
	if e := s.do(op(sat.OpWrite)); e != nil {
		return e
	}
	cov.Trans += w.Trans
	cov.Traces++
	return nil
}

func c03() *eng.Prop {
	tab5, pre5 := bases(nil, bases5)
	tabu, preu := bases(nil, [][][]int{{{1}, {-1, 2}}, {{1, 2}, {1, -2}}, {{}}, {{1}, {-1}}, {{-1, -2}, {-2, -3}, {-1, -3}, {4, 3}, {-4, 2, 1}}, {{-1, 2}, {-2, 3}, {-3, 4}, {-4, 5}}})
	// assumption sequences on whole families: ordered pairs and triples
	fams := pickFams("three4", "php32", "xor5", "chain6", "cls4", "long5")
	return &eng.Prop{ID: "C03", Level: "model_checking",
		Notes: []string{"a core is checked to be a subset of the assumptions in force and to be unsatisfiable with the clauses by truth table"},
		Parts: []*eng.Part{
			histSpec{name: "based5", nv: 5, tab: tab5, prefixes: pre5, alpha: cat(asms(1, -1, 2, -2, 3, -3, 4, -4, 5, -5), solveOp, whyOp, testOps), dq: 5, dt: 6, last: map[int]bool{sat.OpWhy: true}}.part(),
			histSpec{name: "corner", nv: 5, tab: tabu, prefixes: preu, alpha: cat(asms(1, -1, 2, -2, -5, 3), solveOp, whyOp, testOps), dq: 6, dt: 7, last: map[int]bool{sat.OpWhy: true}}.part(),
			histSpec{name: "adds", nv: 3, tab: t3, alpha: cat(adds(t3), asms(1, -1, -3), solveOp, whyOp), dq: 7, dt: 8, last: map[int]bool{sat.OpWhy: true, sat.OpSolve: true}}.part(),
			famPart("fams", "every formula with every ordered triple of distinct-variable literals from the first 4 variables assumed, asked after Solve; and after Test of the first and Solve with the others, solving twice", fams,
				func(nv int, cs [][]int, cov *eng.Cov) error {
					w := sat.NewWorld(nv, cs, small(), nil)
					s := script{w}
					if e := addAll(w, cs); e != nil {
						return e
					}
					for _, t := range triples4 {
						a, b, c := sat.MkLit(sat.OpAssume, t[0]), sat.MkLit(sat.OpAssume, t[1]), sat.MkLit(sat.OpAssume, t[2])
						if e := s.do(a, b, c, op(sat.OpSolve), op(sat.OpWhy)); e != nil {
							return fmt.Errorf("assumptions %v: %v", t, e)
						}
					}
					if e := s.do(op(sat.OpSolve), op(sat.OpWhy)); e != nil {
						return e
					}
					w2 := sat.NewWorld(nv, cs, small(), nil)
					s2 := script{w2}
					if e := addAll(w2, cs); e != nil {
						return e
					}
					for _, t := range triples4 {
						a, b, c := sat.MkLit(sat.OpAssume, t[0]), sat.MkLit(sat.OpAssume, t[1]), sat.MkLit(sat.OpAssume, t[2])
						if e := s2.do(a, op(sat.OpTest), op(sat.OpWhy), b, c, op(sat.OpSolve), op(sat.OpWhy), op(sat.OpUntest)); e != nil {
							return fmt.Errorf("assumptions %v (first tested): %v", t, e)
						}
						if r, ok := w2.LastRes(); ok && r == -1 {
							break // an untest that failed: problem is unsat from here
						}
					}
					cov.Trans += w.Trans + w2.Trans
					cov.Traces += 2
					return nil
				}, pickFams("two4", "circ4", "php43")...),
			knownPart(false, 2, 6),
		}}
}

var triples4 = func() (out [][3]int) {
	lits := []int{1, -1, 2, -2, 3, -3, 4, -4}
	ab := func(x int) int {
		if x < 0 {
			return -x
		}
		return x
	}
	for _, a := range lits {
		for _, b := range lits {
			for _, c := range lits {
				if ab(a) != ab(b) && ab(b) != ab(c) && ab(a) != ab(c) {
					out = append(out, [3]int{a, b, c})
				}
			}
		}
	}
	return
}()

func c04() *eng.Prop {
	tab5, pre5 := bases(nil, bases5)
	tab5b, pre5b := bases([][]int{{-2}, {1, 3}, {-4, -5}}, bases5[:6])
	return &eng.Prop{ID: "C04", Level: "model_checking",
		Notes: []string{"legal scripts only: Test is not called while an enclosing test or the last answer is -1; Add is not called inside scopes", "Test is also required to find everything unit propagation over the added clauses finds"},
		Parts: []*eng.Part{
			histSpec{name: "scopes", nv: 5, tab: tab5, prefixes: pre5, alpha: cat(asms(1, -2, 3, -4, -5), solveOp, testOps, whyOp), dq: 6, dt: 8, complete: true}.part(),
			histSpec{name: "scopes2", nv: 5, tab: tab5, prefixes: pre5, alpha: cat(asms(-1, 4), solveOp, testOps), dq: 8, dt: 10, complete: true}.part(),
			histSpec{name: "addtest", nv: 3, tab: t3, alpha: cat(adds(t3), asms(1, -1, -3), solveOp, testOps), dq: 6, dt: 8, complete: true}.part(),
			histSpec{name: "baseadd", nv: 5, tab: tab5b, prefixes: pre5b, alpha: cat(adds(tab5b[:3]), asms(1, 5, -3), solveOp, testOps, reasOp), dq: 6, dt: 7, complete: true}.part(),
			famPart("fams", "every formula, nested tests of every ordered triple of distinct-variable literals of the first 4 variables with solves inside, all undone, then solved again", pickFams("php32", "php43", "xor5", "chain6", "long5", "cls4"),
				func(nv int, cs [][]int, cov *eng.Cov) error {
					w := sat.NewWorld(nv, cs, small(), nil)
					w.Complete = true
					s := script{w}
					if e := addAll(w, cs); e != nil {
						return e
					}
					for i, t := range triples4 {
						a, b, c := sat.MkLit(sat.OpAssume, t[0]), sat.MkLit(sat.OpAssume, t[1]), sat.MkLit(sat.OpAssume, t[2])
						un := op(sat.OpUntest)
						seq := []int32{a, op(sat.OpTest), b, op(sat.OpTest), c, op(sat.OpTest), op(sat.OpReasons), un, un, un}
						switch i % 4 {
						case 1:
							seq = []int32{a, op(sat.OpTest), b, op(sat.OpSolve), c, op(sat.OpTest), un, un, op(sat.OpSolve)}
						case 2:
							seq = []int32{a, b, op(sat.OpTest), op(sat.OpSolve), op(sat.OpWhy), un, c, op(sat.OpTest), op(sat.OpSolve), un}
						case 3:
							seq = []int32{a, op(sat.OpTest), b, op(sat.OpTest), c, op(sat.OpSolve), un, op(sat.OpSolve), un, op(sat.OpSolve)}
						}
						if e := s.do(seq...); e != nil {
							return fmt.Errorf("literals %v script %d: %v", t, i%4, e)
						}
						for s.w.Legal(un) {
							if e := s.do(un); e != nil {
								return e
							}
						}
					}
					cov.Trans += w.Trans
					cov.Traces++
					return nil
				}, pickFams("two4", "circ4", "three4")...),
			knownPart(false, 7, 8),
		}}
}

func c05() *eng.Prop {
	tab5, pre5 := bases([][]int{{-2}, {1, 3}, {-4, -5}}, bases5)
	return &eng.Prop{ID: "C05", Level: "model_checking",
		Notes: []string{"reasons are asked for everything reported by tests in force, followed to the ends; each step is checked by truth table"},
		Parts: []*eng.Part{
			histSpec{name: "reasons", nv: 5, tab: tab5, prefixes: pre5, alpha: cat(asms(1, -2, 3, -4, -5, -1), solveOp, testOps, reasOp), dq: 6, dt: 7, last: map[int]bool{sat.OpReasons: true}}.part(),
			histSpec{name: "adds", nv: 5, tab: tab5, prefixes: pre5, alpha: cat(adds(tab5[:3]), asms(2, -3, 5), solveOp, testOps, reasOp), dq: 6, dt: 7, last: map[int]bool{sat.OpReasons: true}}.part(),
			histSpec{name: "small", nv: 3, tab: t3, alpha: cat(adds(t3), asms(1, -1, -3), solveOp, testOps, reasOp), dq: 6, dt: 8, last: map[int]bool{sat.OpReasons: true}}.part(),
			famPart("fams", "every formula: every ordered triple of literals of the first 4 variables tested one by one with a solve in between, reasons asked at every level", pickFams("php32", "php43", "xor5", "chain6", "long5", "cls4"),
				func(nv int, cs [][]int, cov *eng.Cov) error {
					w := sat.NewWorld(nv, cs, small(), nil)
					s := script{w}
					if e := addAll(w, cs); e != nil {
						return e
					}
					un, re := op(sat.OpUntest), op(sat.OpReasons)
					for i, t := range triples4 {
						a, b, c := sat.MkLit(sat.OpAssume, t[0]), sat.MkLit(sat.OpAssume, t[1]), sat.MkLit(sat.OpAssume, t[2])
						seq := []int32{a, op(sat.OpTest), re, b, op(sat.OpTest), re, c, op(sat.OpTest), re, un, re, un, un}
						if i%2 == 1 {
							seq = []int32{a, op(sat.OpTest), re, b, op(sat.OpSolve), re, c, op(sat.OpTest), re, un, un}
						}
						if e := s.do(seq...); e != nil {
							return fmt.Errorf("literals %v script %d: %v", t, i%2, e)
						}
						for s.w.Legal(un) {
							if e := s.do(un); e != nil {
								return e
							}
						}
					}
					cov.Trans += w.Trans
					cov.Traces++
					return nil
				}, pickFams("two4", "circ4", "three4")...),
			knownPart(false, 8),
		}}
}

func c06() *eng.Prop {
	slotOps := func(n int) (r []int32) {
		for i := 0; i < n; i++ {
			r = append(r, sat.Mk(sat.OpDeact, i), sat.Mk(sat.OpAssAct, i))
		}
		return
	}
	ta := [][]int{{1, 2}, {-1, 2}, {1, -2}, {-1, -2}, {-1}}
	mkActs := func(ix ...int) (r []int32) {
		for _, i := range ix {
			r = append(r, sat.Mk(sat.OpAct, i))
		}
		return
	}
	acts := [][]int{{-1}, {-1, 2}, {1, -2}, {-2, 3}, {3}}
	abs := [][][]int{{{1}}, {{3, 1}, {-3, 1}}, {{1, 2}, {1, -2}}, {{1, 2, 3}}, {{-1, 2, 3}, {-1, 2, -3}}, {{1, 2}, {1, -2}, {3, 2}, {3, -2}}}
	tb, pb := bases(acts, abs)
	var pre [][]int32
	for _, p := range pb {
		pre = append(pre, p)
		for j := range acts {
			pre = append(pre, append([]int32{sat.Mk(sat.OpAct, j)}, p...))
		}
	}
	actWith := func(slot, c int) int32 { return sat.Mk(sat.OpActWith, slot<<8|c) }
	last := map[int]bool{sat.OpSolve: true, sat.OpTest: true, sat.OpAct: true}
	// many activations: all scripts of "add k activated clauses, solve under subsets, deactivate subsets"
	return &eng.Prop{ID: "C06", Level: "model_checking",
		Notes: []string{"legal scripts only: an activated clause is never empty (the clause and the permanent clauses are jointly satisfiable), a literal is not deactivated while assumed"},
		Parts: []*eng.Part{
			histSpec{name: "act2", nv: 2, tab: ta, alpha: cat(adds(ta)[:4], asms(1), solveOp, mkActs(1, 2, 4), slotOps(2)), dq: 6, dt: 8, last: last}.part(),
			histSpec{name: "based", nv: 3, tab: tb, prefixes: pre, alpha: cat(asms(-1, -3), solveOp, mkActs(0, 1, 2, 3, 4), slotOps(2)), dq: 5, dt: 7, last: last}.part(),
			histSpec{name: "recycle", nv: 3, tab: tb, prefixes: pre, alpha: cat(asms(-1), solveOp, mkActs(1, 4), slotOps(2)), dq: 6, dt: 8, last: last}.part(),
			histSpec{name: "with", nv: 3, tab: tb, prefixes: [][]int32{{op(sat.OpActLit)}, {op(sat.OpActLit), op(sat.OpActLit)}},
				alpha: cat(asms(-1, 3), solveOp, []int32{actWith(0, 0), actWith(0, 1), actWith(0, 3), actWith(1, 2), actWith(1, 1), sat.Mk(sat.OpAdd, 5), op(sat.OpActLit)}, slotOps(2)), dq: 6, dt: 7, last: last}.part(),
			histSpec{name: "scopes", nv: 3, tab: tb, prefixes: pre, alpha: cat(asms(-1), solveOp, testOps, mkActs(1), slotOps(1), whyOp, []int32{op(sat.OpWrite)}), dq: 5, dt: 7}.part(),
			famPart("fams", "every formula with each clause behind its own activation literal: all but one active, each pair left out, everything deactivated one by one with solves in between, then re-activated", pickFams("two4", "php32", "xor5", "chain6", "col4x3", "circ4"),
				func(nv int, cs [][]int, cov *eng.Cov) error { return activationRun(nv, cs, cov) }),
			crowd(),
			splitPart(pickFams("php32", "chain6"), pickFams("xor5", "circ4", "two4", "col4x3", "php43", "long5")),
			knownPart(false, 4),
		}}
}

// activationRun puts the clauses of a formula behind activation literals.
func activationRun(nv int, cs [][]int, cov *eng.Cov) error {
	if len(cs) == 0 {
		return nil
	}
	w := sat.NewWorld(nv, cs, small(), nil)
	s := script{w}
	n := len(cs)
	// the first third permanent, the others activated
	perm := n / 3
	var slots []int // slot index -> clause
	for i := 0; i < n; i++ {
		if i < perm {
			if e := s.do(sat.Mk(sat.OpAdd, i)); e != nil {
				return e
			}
			continue
		}
		if !w.Legal(sat.Mk(sat.OpAct, i)) {
			continue
		}
		if e := s.do(sat.Mk(sat.OpAct, i)); e != nil {
			return e
		}
		slots = append(slots, i)
	}
	live := map[int]bool{}
	for i := range slots {
		live[i] = true
	}
	solveWith := func(skip ...int) error {
	next:
		for i := range slots {
			for _, k := range skip {
				if k == i {
					continue next
				}
			}
			if live[i] {
				if e := s.do(sat.Mk(sat.OpAssAct, i)); e != nil {
					return e
				}
			}
		}
		if e := s.do(op(sat.OpSolve), op(sat.OpWhy)); e != nil {
			return fmt.Errorf("without %v: %v", skip, e)
		}
		return nil
	}
	if e := solveWith(); e != nil {
		return e
	}
	for i := range slots {
		if i > 8 {
			break
		}
		if e := solveWith(i, (i+3)%len(slots)); e != nil {
			return e
		}
	}
	for k := range slots {
		i := (k * 7) % len(slots)
		for !live[i] {
			i = (i + 1) % len(slots)
		}
		live[i] = false
		if e := s.do(sat.Mk(sat.OpDeact, i)); e != nil {
			return e
		}
		if k%3 == 0 || k == len(slots)-1 {
			if e := solveWith(); e != nil {
				return e
			}
		}
		if k%4 == 3 {
			// re-activate the clause just dropped, under a recycled literal
			a := sat.Mk(sat.OpAct, slots[i])
			if w.Legal(a) {
				if e := s.do(a); e != nil {
					return e
				}
				slots = append(slots, slots[i])
				live[len(slots)-1] = true
				if e := solveWith(); e != nil {
					return e
				}
				if len(slots) > 3*n {
					break
				}
			}
		}
	}
	if e := s.do(op(sat.OpSolve)); e != nil {
		return e
	}
	cov.Trans += w.Trans
	cov.Traces++
	return nil
}

func c07() *eng.Prop {
	tab5, pre5 := bases([][]int{{-2}, {1, 3}, {-4, -5}, {-1, -3}}, bases5[:7])
	cp := []int32{op(sat.OpCopy), op(sat.OpSwap)}
	ta := [][]int{{1, 2}, {-1, 2}, {1, -2}, {-1, -2}, {-1}}
	ca := [][]int{{1, 2}, {-1, 2}, {1, -2}, {3}, {-3, -1}}
	return &eng.Prop{ID: "C07", Level: "model_checking",
		Notes: []string{"original and copy each keep their own reference state and are driven in every interleaving of the script", "twin: the copy must continue exactly like a solver that replayed the same history (Copy is documented to copy every bit but statistics and control)"},
		Parts: []*eng.Part{
			histSpec{name: "copy2", nv: 2, tab: ta, alpha: cat(adds(ta)[:4], asms(1, -2), solveOp, testOps, whyOp, cp), dq: 6, dt: 7}.part(),
			histSpec{name: "based5", nv: 5, tab: tab5, prefixes: pre5, alpha: cat(adds(tab5[:2]), asms(1, -4), solveOp, testOps, cp), dq: 6, dt: 7}.part(),
			histSpec{name: "acts", nv: 3, tab: ca, alpha: cat(adds(ca)[:3], solveOp, []int32{sat.Mk(sat.OpAct, 1), sat.Mk(sat.OpAct, 4), sat.Mk(sat.OpDeact, 0), sat.Mk(sat.OpAssAct, 0), sat.Mk(sat.OpAssAct, 1)}, cp), dq: 6, dt: 7}.part(),
			twinPart(),
			actCopyPart(),
			famPart("fams", "every formula: copies taken before, between and after solves; original and copies then extended differently and all solved", pickFams("two4", "php32", "php43", "xor5", "chain6", "circ4", "long5", "col4x3"),
				func(nv int, cs [][]int, cov *eng.Cov) error {
					w := sat.NewWorld(nv, cs, small(), nil)
					s := script{w}
					h := len(cs) / 2
					for i := 0; i < h; i++ {
						if e := s.do(sat.Mk(sat.OpAdd, i)); e != nil {
							return e
						}
					}
					sv, cpo, sw := op(sat.OpSolve), op(sat.OpCopy), op(sat.OpSwap)
					if e := s.do(sv, op(sat.OpWhy), cpo, op(sat.OpWhy), sat.MkLit(sat.OpAssume, 1), sv, sw, sat.MkLit(sat.OpAssume, -1), sv, sw); e != nil {
						return e
					}
					for i := h; i < len(cs); i++ {
						o := sat.Mk(sat.OpAdd, i)
						if i%2 == 0 {
							if e := s.do(o, sv, op(sat.OpWhy)); e != nil {
								return e
							}
						} else if e := s.do(sw, o, sv, op(sat.OpWhy), sw); e != nil {
							return e
						}
					}
					if e := s.do(sat.MkLit(sat.OpAssume, 2), op(sat.OpTest), cpo, sat.MkLit(sat.OpAssume, -1), sv, op(sat.OpUntest), sv, sw, sv, op(sat.OpUntest), sv, sw, sv); e != nil {
						return e
					}
					cov.Trans += w.Trans
					cov.Traces++
					return nil
				}),
			knownPart(false, 3),
		}}
}

// obs is everything a user can observe of a solver after an operation.
func obs(s inter.S, res int) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d:", res)
	switch res {
	case 1:
		for v := z.Var(1); v <= s.MaxVar(); v++ {
			if s.Value(v.Pos()) {
				sb.WriteByte('1')
			} else {
				sb.WriteByte('0')
			}
		}
	case -1:
		fmt.Fprint(&sb, s.Why(nil))
	}
	return sb.String()
}

// twinPart: a copy behaves observably the same as a solver with the same history.
func twinPart() *eng.Part {
	fams := pickFams("php32", "php43", "xor5", "circ4", "col4x3", "chain6", "php53")
	return &eng.Part{
		Name: "twin",
		Desc: "every 7th formula of the families: history H (adds, solves), copy, continuation K on the copy versus H;K on a fresh solver, for copy points before, between and after solves; every observation equal; families " + famNames(fams),
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			k := 0
			stop := false
			for fi, f := range fams {
				f.Enum(t == eng.Thorough, func(p []int32) bool {
					k++
					if t == eng.Quick && k%7 != 0 {
						return true
					}
					for cut := int32(0); cut < 4; cut++ {
						c := append([]int32{int32(fi), cut}, p...)
						if !yield(c) {
							stop = true
							return false
						}
					}
					return true
				})
				if stop {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			nv, cs := fams[c[0]].Build(c[2:])
			cut := int(c[1])
			run := func(copyAt int) []string {
				var s inter.S = gini.NewVc(nv, len(cs))
				var out []string
				for ph := 0; ph < 4; ph++ {
					if ph == copyAt {
						orig := s
						s = s.SCopy()
						// disturb the original; the copy must not notice
						orig.Assume(z.Var(1).Pos())
						orig.Solve()
						orig.Add(z.Var(2).Neg())
						orig.Add(0)
						orig.Solve()
					}
					for i, cl := range cs {
						if i%3 != ph {
							continue
						}
						for _, l := range cl {
							s.Add(z.Dimacs2Lit(l))
						}
						s.Add(0)
					}
					out = append(out, obs(s, s.Solve()))
					s.Assume(z.Dimacs2Lit(-1), z.Dimacs2Lit(nv))
					out = append(out, obs(s, s.Solve()))
					cov.Trans += 2
				}
				return out
			}
			a := run(-1)
			b := run(cut)
			for i := range a {
				if a[i] != b[i] {
					return fmt.Errorf("copy taken in phase %d: observation %d is %s, without a copy %s", cut, i, b[i], a[i])
				}
			}
			cov.Traces++
			return nil
		},
		Show: func(c []int32) string { return fmt.Sprintf("copy in phase %d, %s", c[1], fams[c[0]].ShowP(c[2:])) },
	}
}

// c08: everything again on the build with scaled-down thresholds.
func c08() *eng.Prop {
	tab5, pre5 := bases([][]int{{-2}, {1, 3}, {-4, -5}, {-1, -3}}, bases5)
	big := pickFams("php43", "php53", "xor5", "xor6", "col4x3", "col5x3", "circ4", "circ5", "long5", "long7")
	return &eng.Prop{ID: "C08", Level: "model_checking",
		Notes: []string{"build with restart, clause garbage collection and tick intervals scaled down (overlay on the current source); a second binary with the shipped thresholds runs larger formulas"},
		Parts: []*eng.Part{
			famPart("fams", "scaled thresholds: fresh solver, plain and each single literal assumed", pickFams("two4", "php32", "php43", "php53", "xor5", "xor6", "col4x3", "col5x3", "circ4", "circ5", "long5", "long7", "chain6"),
				func(nv int, cs [][]int, cov *eng.Cov) error {
					if e := solveFresh(nv, cs, small(), nil, nil, cov); e != nil {
						return e
					}
					w := sat.NewWorld(nv, cs, gini.NewVc(nv, 3), nil)
					s := script{w}
					if e := addAll(w, cs); e != nil {
						return e
					}
					for _, as := range singles(nv) {
						if e := s.do(sat.MkLit(sat.OpAssume, as[0]), op(sat.OpSolve), op(sat.OpWhy)); e != nil {
							return fmt.Errorf("assumptions %v: %v", as, e)
						}
					}
					if e := s.do(op(sat.OpSolve), op(sat.OpWrite)); e != nil {
						return e
					}
					cov.Trans += w.Trans
					cov.Traces++
					return nil
				}),
			incFam("incr", "scaled thresholds: clauses added one by one with solves, failed assumptions and scopes in between, written at the end", big),
			famPart("acts", "scaled thresholds: every clause behind an activation literal, deactivated and re-activated with solves between", pickFams("php32", "php43", "xor5", "col4x3", "circ4", "long5"),
				func(nv int, cs [][]int, cov *eng.Cov) error { return activationRun(nv, cs, cov) }),
			famPart("scopes", "scaled thresholds: nested tests with solves inside and reasons", pickFams("php43", "xor5", "xor6", "circ4", "circ5", "long5"),
				func(nv int, cs [][]int, cov *eng.Cov) error {
					w := sat.NewWorld(nv, cs, small(), nil)
					s := script{w}
					if e := addAll(w, cs); e != nil {
						return e
					}
					un, re := op(sat.OpUntest), op(sat.OpReasons)
					for i, t := range triples4 {
						if i%6 != 0 {
							continue
						}
						a, b, c := sat.MkLit(sat.OpAssume, t[0]), sat.MkLit(sat.OpAssume, t[1]), sat.MkLit(sat.OpAssume, t[2])
						if e := s.do(a, op(sat.OpTest), re, op(sat.OpSolve), b, op(sat.OpTest), re, c, op(sat.OpSolve), op(sat.OpWhy), un, op(sat.OpSolve), un, op(sat.OpSolve)); e != nil {
							return fmt.Errorf("literals %v: %v", t, e)
						}
						for s.w.Legal(un) {
							if e := s.do(un); e != nil {
								return e
							}
						}
					}
					if e := s.do(op(sat.OpWrite)); e != nil {
						return e
					}
					cov.Trans += w.Trans
					cov.Traces++
					return nil
				}),
			histSpec{name: "hist", nv: 5, tab: tab5, prefixes: pre5, alpha: cat(adds(tab5[:4]), asms(1, -3, 5), solveOp, testOps), dq: 5, dt: 6}.part(),
			longPart(),
			splitPart(pickFams("php32", "php43"), pickFams("xor5", "circ4", "two4", "col4x3", "long5")),
			knownPart(true, 0, 1, 4, 6),
		}}
}

func c13() *eng.Prop {
	ta := [][]int{{1, 2}, {-1, 2}, {1, -2}, {-1, -2}, {-1}}
	tab5, pre5 := bases([][]int{{-2}, {1, 3}, {-4, -5}}, bases5)
	wr := []int32{op(sat.OpWrite)}
	last := map[int]bool{sat.OpWrite: true}
	return &eng.Prop{ID: "C13", Level: "model_checking",
		Parts: []*eng.Part{
			litsPart(),
			histSpec{name: "write3", nv: 3, tab: t3, alpha: cat(adds(t3), adds(t3u)[:0], asms(1), solveOp, wr), dq: 6, dt: 8, last: last}.part(),
			histSpec{name: "write3u", nv: 3, tab: t3u, alpha: cat(adds(t3u), asms(-3), solveOp, wr), dq: 6, dt: 7, last: last}.part(),
			histSpec{name: "writeact", nv: 2, tab: ta, alpha: cat(adds(ta), asms(1), solveOp, []int32{sat.Mk(sat.OpAct, 1), sat.Mk(sat.OpAct, 2), sat.Mk(sat.OpDeact, 0), sat.Mk(sat.OpAssAct, 0)}, wr), dq: 6, dt: 7, last: last}.part(),
			histSpec{name: "write5", nv: 5, tab: tab5, prefixes: pre5, alpha: cat(adds(tab5[:3]), asms(-1, 3), solveOp, wr), dq: 5, dt: 7, last: last}.part(),
		}}
}

// litsPart: encodings.
func litsPart() *eng.Part {
	const block = 1 << 14
	return &eng.Part{
		Name: "lits",
		Desc: "every variable 1..2^20 (thorough: 2^26) and the last 2^14 of the 31-bit range, both signs",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			n := t.Pick(1<<20, 1<<26)
			for b := 0; b < n/block; b++ {
				if !yield([]int32{int32(b)}) {
					return
				}
			}
			yield([]int32{int32((1<<30)/block - 1)})
			yield([]int32{int32((1<<31)/block - 1)})
		},
		Run: func(c []int32, cov *eng.Cov) error {
			for i := 0; i < block; i++ {
				v := int64(c[0])*block + int64(i)
				if v == 0 || v >= 1<<31 {
					continue
				}
				zv := z.Var(v)
				p, n := zv.Pos(), zv.Neg()
				cov.Trans++
				if p.Var() != zv || n.Var() != zv || !p.IsPos() || n.IsPos() || p.Not() != n || n.Not() != p || p == n {
					return fmt.Errorf("variable %d: pos %d neg %d", v, uint32(p), uint32(n))
				}
				if p.Sign() != 1 || n.Sign() != -1 {
					return fmt.Errorf("variable %d: signs %d %d", v, p.Sign(), n.Sign())
				}
				if int64(p.Dimacs()) != v || int64(n.Dimacs()) != -v {
					return fmt.Errorf("variable %d: dimacs %d %d", v, p.Dimacs(), n.Dimacs())
				}
				if z.Dimacs2Lit(int(v)) != p || z.Dimacs2Lit(int(-v)) != n {
					return fmt.Errorf("variable %d: from dimacs %d %d", v, z.Dimacs2Lit(int(v)), z.Dimacs2Lit(int(-v)))
				}
				if p.String() != fmt.Sprint(v) || n.String() != fmt.Sprint(-v) {
					return fmt.Errorf("variable %d: text %s %s", v, p, n)
				}
			}
			h := eng.NewH()
			h.I(int(c[0]))
			eng.State(uint64(h))
			cov.Traces++
			return nil
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("variables %d..%d", int64(c[0])*block, int64(c[0])*block+block-1)
		},
	}
}
