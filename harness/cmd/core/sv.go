package main

import (
	"fmt"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"

	"vh/eng"
	"vh/sat"
)

// svs are the ways a solver with hidden variables is made here: with variable
// tables which have seen different use before.
var svs = []func() inter.S{
	func() inter.S { return gini.NewSv() },
	func() inter.S { // hidden variables first
		v := z.NewVars()
		v.Inner()
		v.Inner()
		return gini.NewSvVars(v)
	},
	func() inter.S { // in turns, with a freed one
		v := z.NewVars()
		m := v.Inner()
		v.ToInner(z.Var(2).Neg())
		v.Inner()
		v.Inner()
		v.ToInner(z.Var(4).Pos())
		v.Free(m)
		return gini.NewSvVars(v)
	},
	func() inter.S { // all outer variables known, and many hidden ones between
		v := z.NewVars()
		for i := 1; i <= 5; i++ {
			for j := 0; j < i; j++ {
				v.Inner()
			}
			v.ToInner(z.Var(i).Pos())
		}
		return gini.NewSvVars(v)
	},
	func() inter.S { // a copy
		return gini.NewSv().SCopy()
	},
}

func svMk(k int) func(nv int, tab [][]int) *sat.World {
	return func(nv int, tab [][]int) *sat.World { return sat.NewWorldS(nv, tab, svs[k](), nil) }
}

func c20() *eng.Prop {
	ta := [][]int{{1, 2}, {-1, 2}, {3, -2}, {-3, -1}, {-2}}
	tab5, pre5 := bases([][]int{{-2}, {1, 3}, {-4, -5}}, bases5)
	in := []int32{op(sat.OpInner), sat.Mk(sat.OpFree, 0), sat.Mk(sat.OpFree, 1)}
	cp := []int32{op(sat.OpCopy), op(sat.OpSwap)}
	parts := []*eng.Part{
		svSlices(),
	}
	for k := range svs {
		parts = append(parts,
			histSpec{name: fmt.Sprintf("hist%d", k), nv: 3, tab: ta, alpha: cat(adds(ta)[:4], asms(1, -3), solveOp, whyOp, in[:2], []int32{op(sat.OpLit)}), dq: 5, dt: 6, mk: svMk(k)}.part(),
			histSpec{name: fmt.Sprintf("scopes%d", k), nv: 5, tab: tab5, prefixes: pre5, alpha: cat(asms(1, -4, 5), solveOp, testOps, reasOp, whyOp, in[:1], cp), dq: 5, dt: 6, mk: svMk(k)}.part(),
		)
	}
	parts = append(parts,
		histSpec{name: "alloc", nv: 3, tab: ta, alpha: cat(adds(ta)[:3], solveOp, in, cp, []int32{op(sat.OpLit)}), dq: 6, dt: 7, mk: svMk(2)}.part(),
		histSpec{name: "calls", nv: 3, tab: ta, alpha: cat(adds(ta)[:4], asms(-2), []int32{op(sat.OpTry), op(sat.OpTry0), op(sat.OpGoSolve), op(sat.OpInner), op(sat.OpWhy)}), dq: 5, dt: 6, mk: svMk(2)}.part(),
		famPart("fams", "every formula, for each of the 5 table states: clauses added one by one, with hidden variables allocated in between, queries and scopes as for the plain solver", pickFams("php32", "xor5", "chain6", "long5"),
			func(nv int, cs [][]int, cov *eng.Cov) error {
				for k := range svs {
					w := sat.NewWorldS(nv, cs, svs[k](), nil)
					s := script{w}
					for i := range cs {
						if e := s.do(sat.Mk(sat.OpAdd, i)); e != nil {
							return e
						}
						if i%3 == k%3 {
							if e := s.do(op(sat.OpInner)); e != nil {
								return e
							}
						}
						if i%4 == 2 {
							if e := s.do(sat.MkLit(sat.OpAssume, -cs[i][0]), op(sat.OpTest), op(sat.OpReasons), op(sat.OpSolve), op(sat.OpWhy), op(sat.OpUntest)); e != nil {
								return fmt.Errorf("tables %d: %v", k, e)
							}
						}
					}
					for _, as := range singles(nv) {
						if e := s.do(sat.MkLit(sat.OpAssume, as[0]), op(sat.OpSolve), op(sat.OpWhy)); e != nil {
							return fmt.Errorf("tables %d, assuming %v: %v", k, as, e)
						}
					}
					cov.Trans += w.Trans
					cov.Traces++
				}
				return nil
			}, pickFams("two4", "circ4", "cls4")...))
	parts = append(varsParts(), parts...)
	parts = append(parts, knownPartS(false, func(f *sat.KnownF, how int) inter.S { return svs[how%len(svs)]() }, 1, 2, 3, 6, 7, 8))
	return &eng.Prop{ID: "C20", Level: "model_checking",
		Notes: []string{"the solver with hidden variables is driven like the plain one in the same lock step with the truth-table reference", "the tables alone are compared with an explicit bijection after every call"},
		Parts: parts}
}

// varsPart: z.Vars alone against an explicit map.
func varsParts() []*eng.Part {
	const (
		vIn    = iota // ToInner of outer literal
		vIns          // ToInners of a slice
		vOut          // ToOuter
		vInner        // Inner
		vFree         // Free of a live inner
		vCopy         // continue on a copy
		vOuter        // Outer
		vSwap
	)
	type o struct{ k, a int }
	ops := []o{{vIn, 1}, {vIn, -2}, {vIn, 4}, {vIns, 0}, {vOut, 0}, {vInner, 0}, {vFree, 0}, {vFree, 1}, {vCopy, 0}, {vOuter, 0}, {vSwap, 0}}
	type st struct {
		v     *z.Vars
		o2i   map[int]int // outer variable -> inner, as learned
		inner []z.Lit     // allocated and not freed
	}
	clone := func(s *st) *st {
		n := &st{v: s.v.Copy(), o2i: map[int]int{}, inner: append([]z.Lit{}, s.inner...)}
		for a, b := range s.o2i {
			n.o2i[a] = b
		}
		return n
	}
	lit := func(x int) z.Lit { return z.Dimacs2Lit(x) }
	// the mapping of every outer variable seen so far must be stable, one to one,
	// apart from hidden variables, and undone by ToOuter, with signs
	check := func(s *st) error {
		used := map[int]int{}
		max := 0
		for a := range s.o2i {
			if a > max {
				max = a
			}
		}
		if m := s.v.MaxOuter(); int(m) != max {
			return fmt.Errorf("MaxOuter is %d, the largest variable referenced is %d", m, max)
		}
		for a, b := range s.o2i {
			if c, ok := used[b]; ok {
				return fmt.Errorf("outer %d and %d share inner %d", a, c, b)
			}
			used[b] = a
			if m := s.v.ToInner(lit(a)); m != lit(b) {
				return fmt.Errorf("outer %d was mapped to %d, now to %s", a, b, m)
			}
			if m := s.v.ToInner(lit(-a)); m != lit(-b) {
				return fmt.Errorf("outer %d is mapped to %d, but %d to %s", a, b, -a, m)
			}
			if m := s.v.ToOuter(lit(b)); m != lit(a) {
				return fmt.Errorf("outer %d maps to %d, which maps back to %s", a, b, m)
			}
			if m := s.v.ToOuter(lit(-b)); m != lit(-a) {
				return fmt.Errorf("outer %d maps to %d, which maps back to %s", -a, -b, m)
			}
		}
		for _, m := range s.inner {
			if a, ok := used[int(m.Var())]; ok {
				return fmt.Errorf("hidden variable %s is also outer variable %d", m, a)
			}
			if x := s.v.ToOuter(m); x != z.LitNull {
				return fmt.Errorf("hidden variable %s maps to outer %s", m, x)
			}
			if x := s.v.ToOuter(m.Not()); x != z.LitNull {
				return fmt.Errorf("hidden literal %s maps to outer %s", m.Not(), x)
			}
		}
		return nil
	}
	learn := func(s *st, a int, m z.Lit) error {
		if m == z.LitNull || m.Var() == 0 {
			return fmt.Errorf("outer %d mapped to variable 0", a)
		}
		v := a
		if v < 0 {
			v = -v
		}
		if m.IsPos() != (a > 0) {
			return fmt.Errorf("outer %d mapped to %s: sign lost", a, m)
		}
		if b, ok := s.o2i[v]; ok && b != int(m.Var()) {
			return fmt.Errorf("outer %d mapped to %s, before to %d", a, m, b)
		}
		s.o2i[v] = int(m.Var())
		return nil
	}
	run := func(c []int32, cov *eng.Cov) error {
		s := &st{v: z.NewVars(), o2i: map[int]int{}}
		var other *st
		for _, x := range c {
			op := ops[x]
			switch op.k {
			case vIn:
				if e := learn(s, op.a, s.v.ToInner(lit(op.a))); e != nil {
					return e
				}
			case vIns:
				in := []z.Lit{lit(3), lit(-1), lit(3), lit(6)}
				out := s.v.ToInners(append([]z.Lit{}, in...))
				if len(out) != len(in) {
					return fmt.Errorf("ToInners: %d literals of %d", len(out), len(in))
				}
				for i := range in {
					if e := learn(s, in[i].Dimacs(), out[i]); e != nil {
						return e
					}
				}
				// and back, with hidden ones in between left out
				var mix []z.Lit
				for i := range out {
					mix = append(mix, out[i])
					for _, h := range s.inner {
						mix = append(mix, h)
					}
				}
				back := s.v.ToOuters(mix)
				if fmt.Sprint(back) != fmt.Sprint(in) {
					return fmt.Errorf("ToOuters gives %v, not %v", back, in)
				}
			case vOut:
				// inner literals never handed out map to nothing
				mx := 0
				for _, b := range s.o2i {
					if b > mx {
						mx = b
					}
				}
				_ = s.v.ToOuter(z.Var(mx + 1).Neg())
			case vInner:
				m := s.v.Inner()
				if m == z.LitNull || m.Var() == 0 || !m.IsPos() {
					return fmt.Errorf("Inner gives %d", uint32(m))
				}
				for _, h := range s.inner {
					if h == m {
						return fmt.Errorf("Inner gives %s, which is in use", m)
					}
				}
				s.inner = append(s.inner, m)
			case vFree:
				if op.a < len(s.inner) {
					s.v.Free(s.inner[op.a])
					s.inner = append(s.inner[:op.a:op.a], s.inner[op.a+1:]...)
				}
			case vCopy:
				other = s
				s = clone(s)
			case vSwap:
				if other != nil {
					s, other = other, s
				}
			case vOuter:
				m := s.v.Outer()
				if !m.IsPos() || m.Var() == 0 {
					return fmt.Errorf("Outer gives %s", m)
				}
				for a := range s.o2i {
					if int(m.Var()) <= a {
						return fmt.Errorf("Outer gives %s after %d was referenced", m, a)
					}
				}
				if e := learn(s, int(m.Var()), s.v.ToInner(m)); e != nil {
					return e
				}
			}
			if e := check(s); e != nil {
				return fmt.Errorf("after %s: %v", showVars(ops[x].k, ops[x].a), e)
			}
			if other != nil {
				if e := check(other); e != nil {
					return fmt.Errorf("after %s, other copy: %v", showVars(ops[x].k, ops[x].a), e)
				}
			}
			cov.Trans++
		}
		h := eng.NewH()
		h.S(s.v.String())
		eng.State(uint64(h))
		cov.Traces++
		return nil
	}
	macros := []string{"map in the next k", "map in the next k, last first", "allocate k", "free every second", "new outer k times", "copy"}
	many := &eng.Part{
		Name: "many",
		Desc: "variable tables: every sequence of 4 (thorough 5) of 6 steps of k calls each (map in upwards, downwards, allocate, free every second, new outer variable, copy), k of 1, 7, 33, 130, 300; compared with an explicit one-to-one map after every step, both copies",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for _, k := range []int32{1, 7, 33, 130, 300} {
				if !words(len(macros), t.Pick(4, 5), func(c []int32) bool { return yield(append([]int32{k}, c...)) }) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			s := &st{v: z.NewVars(), o2i: map[int]int{}}
			var other *st
			k := int(c[0])
			for _, x := range c[1:] {
				top := 0
				for a := range s.o2i {
					if a > top {
						top = a
					}
				}
				switch x {
				case 0, 1:
					for i := 0; i < k; i++ {
						a := top + 1 + i
						if x == 1 {
							a = top + k - i
						}
						if i%3 == 1 {
							a = -a
						}
						if e := learn(s, a, s.v.ToInner(lit(a))); e != nil {
							return e
						}
					}
				case 2:
					have := map[z.Lit]bool{}
					for _, h := range s.inner {
						have[h] = true
					}
					for i := 0; i < k; i++ {
						m := s.v.Inner()
						if m == z.LitNull || m.Var() == 0 || !m.IsPos() || have[m] {
							return fmt.Errorf("Inner gives %s, in use: %v", m, have[m])
						}
						have[m] = true
						s.inner = append(s.inner, m)
					}
				case 3:
					var keep []z.Lit
					for i, m := range s.inner {
						if i%2 == 0 {
							s.v.Free(m)
						} else {
							keep = append(keep, m)
						}
					}
					s.inner = keep
				case 4:
					for i := 0; i < k; i++ {
						m := s.v.Outer()
						if !m.IsPos() || int(m.Var()) <= top {
							return fmt.Errorf("Outer gives %s after %d was referenced", m, top)
						}
						top = int(m.Var())
						if e := learn(s, top, s.v.ToInner(m)); e != nil {
							return e
						}
					}
				case 5:
					other = s
					s = clone(s)
				}
				cov.Trans += int64(k)
				if e := check(s); e != nil {
					return fmt.Errorf("after %s: %v", macros[x], e)
				}
				if other != nil {
					if e := check(other); e != nil {
						return fmt.Errorf("after %s, other copy: %v", macros[x], e)
					}
				}
			}
			h := eng.NewH()
			h.S(s.v.String())
			eng.State(uint64(h))
			cov.Nontriv++
			cov.Traces++
			return nil
		},
		Show: func(c []int32) string {
			s := fmt.Sprintf("k = %d", c[0])
			for _, x := range c[1:] {
				s += "; " + macros[x]
			}
			return s
		},
	}
	vars := &eng.Part{
		Name: "vars",
		Desc: fmt.Sprintf("variable tables: every sequence of up to 6 (thorough 7) of %d calls (map in, map slices in and back, map out, allocate, free, copy, switch between copies, new outer variable), compared with an explicit one-to-one map after every call", len(ops)),
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for d := 1; d <= t.Pick(6, 7); d++ {
				if !words(len(ops), d, yield) {
					return
				}
			}
		},
		Run: run,
		Show: func(c []int32) string {
			s := ""
			for _, x := range c {
				s += showVars(ops[x].k, ops[x].a) + "; "
			}
			return s
		},
	}
	// the calls that concern the list of free variables, from states in which
	// it has room: index into ops
	sub := []int32{0, 5, 6, 7, 8, 10}
	pre := [][]int32{{5, 5}, {5, 5, 6, 5}, {5, 5, 5, 6, 6, 5}, {5, 5, 5, 5, 6, 6, 6, 5, 5}, {0, 5, 5, 6, 1, 5}}
	free := &eng.Part{
		Name: "free",
		Desc: "free lists of tables and their copies: from 5 states with variables allocated and freed, every sequence of up to 6 (thorough 8) calls over map in, allocate, free, copy, switch; then 4 allocations in each copy",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for pi := range pre {
				for d := 1; d <= t.Pick(6, 8); d++ {
					ok := words(len(sub), d, func(c []int32) bool {
						w := append([]int32{}, pre[pi]...)
						for _, x := range c {
							w = append(w, sub[x])
						}
						return yield(append(w, 5, 5, 5, 5, 10, 5, 5, 5, 5))
					})
					if !ok {
						return
					}
				}
			}
		},
		Run:  run,
		Show: vars.Show,
	}
	return []*eng.Part{vars, many, free}
}

func showVars(k, a int) string {
	return fmt.Sprintf("%s(%d)", []string{"ToInner", "ToInners/ToOuters", "ToOuter", "Inner", "Free", "Copy", "Outer", "Swap"}[k], a)
}

// words yields every word of length d over n letters.
func words(n, d int, yield func(c []int32) bool) bool {
	buf := make([]int32, d)
	for {
		if !yield(buf) {
			return false
		}
		i := d - 1
		for ; i >= 0; i-- {
			buf[i]++
			if int(buf[i]) < n {
				break
			}
			buf[i] = 0
		}
		if i < 0 {
			return true
		}
	}
}

// svSlices: slices given by the caller stay the caller's.
func svSlices() *eng.Part {
	forms := [][][]int{{}, {{1, 2}}, {{-1, -2}}, {{-1, 2}, {-2, 3}}, {{-1}, {2, 3}}, {{1, 2, 3}, {-1, -2}, {-2, -3}, {-1, -3}}}
	return &eng.Part{
		Name: "slices",
		Desc: "Assume with every list of up to 3 literals over 3 variables, on 6 formulas and 5 table states: the list is left as it was, the answer is right, Why keeps what is in front of it",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for f := range forms {
				for k := range svs {
					for d := 0; d <= 3; d++ {
						if !words(6, d, func(c []int32) bool { return yield(append([]int32{int32(f), int32(k)}, c...)) }) {
							return
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			s := svs[c[1]]()
			phi := sat.Full(3)
			for _, cl := range forms[c[0]] {
				for _, l := range cl {
					s.Add(z.Dimacs2Lit(l))
				}
				s.Add(0)
				phi.AndClause(cl)
			}
			var ls []int
			var ms []z.Lit
			for _, x := range c[2:] {
				l := int(x/2) + 1
				if x%2 == 1 {
					l = -l
				}
				ls = append(ls, l)
				ms = append(ms, z.Dimacs2Lit(l))
			}
			for round := 0; round < 2; round++ {
				s.Assume(ms...)
				for i, l := range ls {
					if ms[i] != z.Dimacs2Lit(l) {
						return fmt.Errorf("Assume changed the caller's list to %v", ms)
					}
				}
				want := 1
				if phi.With(ls...).Empty() {
					want = -1
				}
				if r := s.Solve(); r != want {
					return fmt.Errorf("round %d: Solve is %d, not %d", round, r, want)
				}
				cov.Trans++
				if want == 1 {
					for _, m := range ms {
						if !s.Value(m) || s.Value(m.Not()) {
							return fmt.Errorf("assumed %s has the wrong value", m)
						}
					}
					continue
				}
				pre := []z.Lit{z.Dimacs2Lit(7), z.Dimacs2Lit(-9)}
				for cp := 2; cp <= 8; cp += 6 {
					dst := make([]z.Lit, 2, cp)
					copy(dst, pre)
					out := s.Why(dst)
					if len(out) < 2 || out[0] != pre[0] || out[1] != pre[1] {
						return fmt.Errorf("Why(%v) gives %v: what was in front is lost", pre, out)
					}
					var core []int
					for _, m := range out[2:] {
						ok := false
						for i := range ls {
							ok = ok || m == ms[i]
						}
						if !ok {
							return fmt.Errorf("Why gives %v: %s was not assumed", out[2:], m)
						}
						core = append(core, m.Dimacs())
					}
					if !phi.With(core...).Empty() {
						return fmt.Errorf("Why gives %v, which does not fail", core)
					}
				}
			}
			h := eng.NewH()
			for _, x := range c {
				h.I(int(x))
			}
			eng.State(uint64(h))
			cov.Traces++
			return nil
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("formula %v tables %d assumed %v", forms[c[0]], c[1], c[2:])
		},
	}
}
