package main

import (
	"fmt"

	"github.com/go-air/gini"
	"github.com/go-air/gini/z"

	"vh/eng"
	"vh/sat"
)

// splitRun: a formula, some of whose clauses sit behind activation literals
// (one each, or sharing one); clauses are learned from them, the literal is
// dropped, taken over by another clause, and everything solved again under
// each single literal.
func splitRun(nv int, cs [][]int, mode int, cov *eng.Cov) error {
	n := len(cs)
	if n < 2 {
		return nil
	}
	// clause n: what takes the literal over
	tab := append(append([][]int{}, cs...), []int{1, nv})
	w := sat.NewWorld(nv, tab, small(), nil)
	s := script{w}
	sv, why := op(sat.OpSolve), op(sat.OpWhy)
	var slots []int
	nslot := 0
	act := func(i int) error {
		o := sat.Mk(sat.OpAct, i)
		if !w.Legal(o) {
			return nil
		}
		if e := s.do(o); e != nil {
			return e
		}
		slots = append(slots, nslot)
		nslot++
		return nil
	}
	shared := -1
	for i := 0; i < n; i++ {
		behind := false
		switch mode % 3 {
		case 0:
			behind = i%2 == 0
		case 1:
			behind = i >= n/2
		case 2:
			behind = i%3 == 1
		}
		switch {
		case !behind:
			if e := s.do(sat.Mk(sat.OpAdd, i)); e != nil {
				return e
			}
		case mode/3 == 0:
			if e := act(i); e != nil {
				return e
			}
		default:
			if shared < 0 {
				if e := s.do(op(sat.OpActLit)); e != nil {
					return e
				}
				shared = nslot
				slots = append(slots, nslot)
				nslot++
			}
			if e := s.do(sat.Mk(sat.OpActWith, shared<<8|i)); e != nil {
				return e
			}
		}
	}
	all := func(skip int) error {
		for _, sl := range slots {
			if sl == skip {
				continue
			}
			if e := s.do(sat.Mk(sat.OpAssAct, sl)); e != nil {
				return e
			}
		}
		return nil
	}
	round := func(skip int) error {
		for v := -nv; v <= nv; v++ {
			if e := all(skip); e != nil {
				return e
			}
			if v != 0 {
				if e := s.do(sat.MkLit(sat.OpAssume, v)); e != nil {
					return e
				}
			}
			if e := s.do(sv, why); e != nil {
				return fmt.Errorf("with all slots of %v but %d and literal %d: %v", slots, skip, v, e)
			}
		}
		return nil
	}
	if e := round(-1); e != nil {
		return e
	}
	k := len(slots)
	if k > 5 {
		k = 5
	}
	for j := 0; j < k; j++ {
		d := slots[j]
		if e := s.do(sat.Mk(sat.OpDeact, d)); e != nil {
			return e
		}
		// taken over
		o := sat.Mk(sat.OpAct, n)
		if w.Legal(o) {
			if e := s.do(o); e != nil {
				return e
			}
			slots[j] = nslot
			nslot++
		}
		if e := round(-1); e != nil {
			return fmt.Errorf("slot %d deactivated: %v", d, e)
		}
		if j == 0 {
			if e := round(slots[len(slots)-1]); e != nil {
				return fmt.Errorf("slot %d deactivated: %v", d, e)
			}
		}
	}
	if e := s.do(sv); e != nil {
		return e
	}
	cov.Trans += w.Trans
	cov.Traces++
	return nil
}

func splitPart(fams, more []*sat.Family) *eng.Part {
	return famPart("split", "every formula, part of its clauses behind activation literals (3 choices of which; one literal each or one for all): solved under each single literal, each literal in turn deactivated and taken over by another clause, and solved under each single literal again",
		fams, func(nv int, cs [][]int, cov *eng.Cov) error {
			for mode := 0; mode < 6; mode++ {
				if e := splitRun(nv, cs, mode, cov); e != nil {
					return fmt.Errorf("mode %d: %v", mode, e)
				}
			}
			return nil
		}, more...)
}

// actCopyPart: activated clauses, a copy, and every pair of subsets of them
// deactivated on the two sides.
func actCopyPart() *eng.Part {
	pools := [][][]int{
		{{1, 2}, {2, 3, 4}, {-1, 5}, {3, -4, 5, 1}},
		{{1, 2, 3}, {1, 2, 3}, {-3, 4, 5}, {-1, -2}},
		{{1, 4}, {2, 5, 3}, {1, 2, 3, 4}, {-5, -4, -3}},
		{{1, 2, 3}, {2, 3, 4}, {3, 4, 5}, {1, 5}, {-2, -4, 1}},
	}
	return &eng.Part{
		Name: "actcopy",
		Desc: "4-5 activated clauses, optionally solved, copied; every subset deactivated in the original times every subset in the copy, original or copy first, ascending or descending; then each side checked clause by clause and under each pair of literals",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for p := range pools {
				n := len(pools[p])
				for a := 0; a < 1<<uint(n); a++ {
					for b := 0; b < 1<<uint(n); b++ {
						for o := 0; o < 8; o++ {
							if !yield([]int32{int32(p), int32(a), int32(b), int32(o)}) {
								return
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			tab := pools[c[0]]
			n := len(tab)
			w := sat.NewWorld(5, tab, small(), nil)
			s := script{w}
			for i := range tab {
				if e := s.do(sat.Mk(sat.OpAct, i)); e != nil {
					return e
				}
			}
			if c[3]&4 != 0 {
				for i := range tab {
					if e := s.do(sat.Mk(sat.OpAssAct, i)); e != nil {
						return e
					}
				}
				if e := s.do(op(sat.OpSolve)); e != nil {
					return e
				}
			}
			sub := [2]int32{c[1], c[2]}
			// current side is the copy
			if e := s.do(op(sat.OpCopy)); e != nil {
				return e
			}
			drop := func(side int) error {
				for i := 0; i < n; i++ {
					j := i
					if c[3]&2 != 0 {
						j = n - 1 - i
					}
					if sub[side]>>uint(j)&1 != 0 {
						if e := s.do(sat.Mk(sat.OpDeact, j)); e != nil {
							return e
						}
					}
				}
				return nil
			}
			check := func(side int, what string) error {
				live := func() error {
					for i := 0; i < n; i++ {
						if sub[side]>>uint(i)&1 == 0 {
							if e := s.do(sat.Mk(sat.OpAssAct, i)); e != nil {
								return e
							}
						}
					}
					return nil
				}
				for i := 0; i < n; i++ {
					if sub[side]>>uint(i)&1 == 0 {
						if e := s.do(sat.Mk(sat.OpAssAct, i)); e != nil {
							return e
						}
					}
					for _, l := range tab[i] {
						if e := s.do(sat.MkLit(sat.OpAssume, -l)); e != nil {
							return e
						}
					}
					if e := s.do(op(sat.OpSolve), op(sat.OpWhy)); e != nil {
						return fmt.Errorf("%s, literals of clause %d false: %v", what, i, e)
					}
				}
				for a := -5; a <= 5; a++ {
					for b := a + 1; b <= 5; b++ {
						if a == 0 || b == 0 || (a+b)%2 == 0 && a != 1 {
							continue
						}
						if e := live(); e != nil {
							return e
						}
						if e := s.do(sat.MkLit(sat.OpAssume, a), sat.MkLit(sat.OpAssume, b), op(sat.OpSolve), op(sat.OpWhy)); e != nil {
							return fmt.Errorf("%s, literals %d %d: %v", what, a, b, e)
						}
					}
				}
				return nil
			}
			sw := op(sat.OpSwap)
			// sides: 0 original, 1 copy
			if c[3]&1 == 0 {
				if e := s.do(sw); e != nil {
					return e
				}
				if e := drop(0); e != nil {
					return fmt.Errorf("original: %v", e)
				}
				if e := s.do(sw); e != nil {
					return e
				}
				if e := drop(1); e != nil {
					return fmt.Errorf("copy: %v", e)
				}
			} else {
				if e := drop(1); e != nil {
					return fmt.Errorf("copy: %v", e)
				}
				if e := s.do(sw); e != nil {
					return e
				}
				if e := drop(0); e != nil {
					return fmt.Errorf("original: %v", e)
				}
				if e := s.do(sw); e != nil {
					return e
				}
			}
			if e := check(1, "copy"); e != nil {
				return e
			}
			if e := s.do(sw); e != nil {
				return e
			}
			if e := check(0, "original"); e != nil {
				return e
			}
			cov.Trans += w.Trans
			cov.Traces++
			cov.Nontriv++
			return nil
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("clauses %v activated, deactivated in the original %b, in the copy %b, order %d", pools[c[0]], c[1], c[2], c[3])
		},
	}
}

// longPart: clauses around the sizes at which header fields wrap, moved by
// compactions.  The clauses are positive, so the reference is direct:
// satisfiable iff each live clause keeps a literal which is not negated.
func longPart() *eng.Part {
	var lens []int32
	for _, c := range []int32{3, 32, 64, 96, 128} {
		for d := int32(-2); d <= 4; d++ {
			if c+d > 1 {
				lens = append(lens, c+d)
			}
		}
	}
	return &eng.Part{
		Name: "long",
		Desc: "a clause of every length within 2 below and 4 above 3, 32, 64, 96 and 128, permanent or activated, with 0..12 activated clauses before and after it (step 4) dropped one by one, with or without a hard formula on other variables solved in between; then every pair of its literals false, all but one false, all false",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for _, n := range lens {
				for pre := int32(0); pre <= 12; pre += 4 {
					for post := int32(0); post <= 12; post += 4 {
						for o := int32(0); o < 4; o++ {
							if !yield([]int32{n, pre, post, o}) {
								return
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			n := int(c[0])
			g := gini.NewVc(n+20, 8)
			v := func(i int) z.Lit { return z.Var(i).Pos() }
			for i := 0; i < n+40; i++ {
				g.Lit()
			}
			var hard [][]int
			if c[3]&1 != 0 {
				for p := 0; p < 4; p++ {
					var cl []int
					for h := 0; h < 3; h++ {
						cl = append(cl, n+1+p*3+h)
					}
					hard = append(hard, append(cl, n+39))
				}
				for h := 0; h < 3; h++ {
					for p := 0; p < 4; p++ {
						for q := p + 1; q < 4; q++ {
							hard = append(hard, []int{-(n + 1 + p*3 + h), -(n + 1 + q*3 + h)})
						}
					}
				}
			}
			add := func(ls ...int) {
				for _, l := range ls {
					g.Add(z.Dimacs2Lit(l))
				}
			}
			var acts []z.Lit
			drop := func(k int) { // activated clauses on the clause's own variables and others
				for i := 0; i < k; i++ {
					add(1+(i*3)%n, -(n + 20 + i%5), n+26+i%4)
					if i%3 == 0 {
						add(n + 31)
					}
					acts = append(acts, g.Activate())
				}
			}
			drop(int(c[1]))
			for _, h := range hard {
				add(h...)
				g.Add(0)
			}
			all := make([]int, n)
			for i := range all {
				all[i] = i + 1
			}
			var a z.Lit
			add(all...)
			if c[3]&2 != 0 {
				a = g.Activate()
			} else {
				g.Add(0)
			}
			drop(int(c[2]))
			trans := int64(0)
			sol := func(want int, ls ...int) error {
				if a != 0 {
					g.Assume(a)
				}
				for _, l := range ls {
					g.Assume(z.Dimacs2Lit(l))
				}
				trans++
				if r := g.Solve(); r != want {
					if len(ls) > 6 {
						ls = ls[:6]
					}
					return fmt.Errorf("Solve assuming %v… is %d, not %d", ls, r, want)
				}
				return nil
			}
			full := func() error {
				for i := 1; i <= n; i++ {
					for j := i + 1; j <= n; j++ {
						if j > i+2 && (i*j)%7 != 0 {
							continue
						}
						w := 1
						if n == 2 {
							w = -1
						}
						if e := sol(w, -i, -j); e != nil {
							return e
						}
						if w == 1 {
							some := false
							for k := 1; k <= n; k++ {
								if k != i && k != j && g.Value(v(k)) {
									some = true
									break
								}
							}
							if !some || g.Value(v(i)) || g.Value(v(j)) {
								return fmt.Errorf("assuming %d %d false, the values leave the clause unsatisfied", i, j)
							}
						}
					}
				}
				for _, k := range []int{1, 2, n/2 + 1, n - 1, n} {
					var ls []int
					for i := 1; i <= n; i++ {
						if i != k {
							ls = append(ls, -i)
						}
					}
					if e := sol(1, ls...); e != nil {
						return fmt.Errorf("all but literal %d false: %v", k, e)
					}
					if !g.Value(v(k)) {
						return fmt.Errorf("all but literal %d false: its value is false", k)
					}
				}
				var ls []int
				for i := 1; i <= n; i++ {
					ls = append(ls, -i)
				}
				if e := sol(-1, ls...); e != nil {
					return fmt.Errorf("all false: %v", e)
				}
				why := g.Why(nil)
				nw := len(why)
				for _, m := range why {
					if m == a {
						nw--
					}
				}
				if nw != n {
					return fmt.Errorf("all false: Why has %d literals, all %d are needed", nw, n)
				}
				return nil
			}
			hardly := func() error {
				if len(hard) == 0 {
					return nil
				}
				if e := sol(-1, -(n + 39)); e != nil {
					return fmt.Errorf("the hard formula: %v", e)
				}
				return sol(1)
			}
			if e := hardly(); e != nil {
				return e
			}
			for i, m := range acts {
				g.Deactivate(m)
				if i%5 == 2 {
					if e := sol(1); e != nil {
						return e
					}
				}
			}
			if e := hardly(); e != nil {
				return fmt.Errorf("after dropping: %v", e)
			}
			if e := full(); e != nil {
				return fmt.Errorf("length %d: %v", n, e)
			}
			h := eng.NewH()
			for _, x := range c {
				h.I(int(x))
			}
			eng.State(uint64(h))
			cov.Trans += trans
			cov.Traces++
			cov.Nontriv++
			return nil
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("clause of %d literals, %d activated clauses before and %d after, option %d (1: hard formula, 2: activated)", c[0], c[1], c[2], c[3])
		},
	}
}
