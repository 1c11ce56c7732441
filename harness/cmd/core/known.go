package main

import (
	"fmt"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"

	"vh/eng"
	"vh/sat"
)

var knownModes = []string{"at once", "in quarters, solved after each", "every clause under one assumption", "copied half way", "under activation literals, in thirds", "each variable assumed in turn", "in up to 40 groups each under an assumption of its own, all assumed, then those named as failed", "as before, half of the assumptions tested before and taken back", "4 nested tests of one literal each, what they report with its reasons, twice, before and after solving"}

// knownPart solves formulas of known answer in the given ways.
// With easy only the easy ones are used: builds with scaled-down thresholds
// need very long for the others.
func knownPart(easy bool, modes ...int) *eng.Part {
	return knownPartS(easy, func(f *sat.KnownF, how int) inter.S {
		if how%2 == 1 {
			return gini.NewVc(f.NV, len(f.CS))
		}
		return gini.New()
	}, modes...)
}

func knownPartS(easy bool, mk func(f *sat.KnownF, how int) inter.S, modes ...int) *eng.Part {
	quick, all := sat.KnownFormulas(false), sat.KnownFormulas(true)
	if easy {
		var r []sat.KnownF
		for _, f := range quick {
			if f.Hard == 0 {
				r = append(r, f)
			}
		}
		quick, all = r, r
	}
	pick := func(t eng.Tier) []sat.KnownF {
		if t == eng.Thorough {
			return all
		}
		return quick
	}
	desc := ""
	for _, m := range modes {
		desc += "; " + knownModes[m]
	}
	byName := map[string]*sat.KnownF{}
	names := []string{}
	for i := range all {
		byName[all[i].Name] = &all[i]
		names = append(names, all[i].Name)
	}
	num := map[string]int32{}
	for i, n := range names {
		num[n] = int32(i)
	}
	return &eng.Part{
		Name: "theorems",
		Desc: fmt.Sprintf("%d (thorough %d) formulas of 4 to 3000 variables whose answer is known (pigeons, chains, parities, colourings, van der Waerden, Schur and Ramsey numbers, queens, dominoes) in 27 presentations (names, signs, order; hard ones: 3) and %d ways%s", len(quick), len(all), len(modes), desc),
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for _, f := range pick(t) {
				for how := int32(0); how < 27; how++ {
					if f.Hard > 0 && how%13 != 0 {
						continue
					}
					for _, m := range modes {
						if !yield([]int32{num[f.Name], how, int32(m)}) {
							return
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			h := eng.NewH()
			for _, x := range c {
				h.I(int(x))
			}
			eng.State(uint64(h))
			cov.Nontriv++
			cov.Traces++
			f := &all[c[0]]
			return knownRun(f, mk(f, int(c[1])), int(c[1]), int(c[2]), cov)
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("%s, presentation %d, %s", all[c[0]].Name, c[1], knownModes[c[2]])
		},
		Dynamic: true,
		Hang:    10 * time.Minute,
	}
}

func knownRun(f *sat.KnownF, g inter.S, how, mode int, cov *eng.Cov) error {
	cs, ren := sat.PresentKnown(f, how)
	lit := func(l int) z.Lit { return z.Dimacs2Lit(l) }
	// hidden variables come and go between the clauses
	hidden := map[inter.S][]z.Lit{}
	added := 0
	add := func(g inter.S, c []int, more ...z.Lit) {
		added++
		if w, ok := g.(inter.Sv); ok {
			if added%5 == 2 {
				hidden[g] = append(hidden[g], w.Inner())
			}
			if h := hidden[g]; added%15 == 4 && len(h) > 1 {
				w.FreeInner(h[len(h)-2])
				h[len(h)-2] = h[len(h)-1]
				hidden[g] = h[:len(h)-1]
			}
		}
		for _, l := range c {
			g.Add(lit(l))
		}
		for _, m := range more {
			g.Add(m)
		}
		g.Add(0)
	}
	model := func(g inter.S, cs [][]int) error {
		for _, c := range cs {
			ok := false
			for _, l := range c {
				v := g.Value(lit(l))
				if v == g.Value(lit(-l)) {
					return fmt.Errorf("%d and its negation have the same value", l)
				}
				ok = ok || v
			}
			if !ok {
				return fmt.Errorf("clause %v is false in the model", c)
			}
		}
		return nil
	}
	// solve checks an answer; known says whether want is known
	solve := func(g inter.S, cs [][]int, known, want bool, what string, as ...z.Lit) (int, error) {
		g.Assume(as...)
		r := g.Solve()
		cov.Trans++
		if r == 1 {
			cov.Inc("sat")
		} else {
			cov.Inc("unsat")
		}
		if r != 1 && r != -1 || known && (r == 1) != want {
			return r, fmt.Errorf("%s: Solve gives %d, satisfiable %v", what, r, want)
		}
		if r == 1 {
			if e := model(g, cs); e != nil {
				return r, fmt.Errorf("%s: %v", what, e)
			}
			for _, m := range as {
				if !g.Value(m) {
					return r, fmt.Errorf("%s: assumption %s is false in the model", what, m)
				}
			}
			return r, nil
		}
		has := map[z.Lit]bool{}
		for _, m := range as {
			has[m] = true
		}
		ms := g.Why(nil)
		for _, m := range ms {
			if !has[m] {
				return r, fmt.Errorf("%s: failed assumption %s was not assumed", what, m)
			}
			has[m] = false
		}
		return r, nil
	}
	n := len(cs)
	switch mode {
	case 0:
		for _, c := range cs {
			add(g, c)
		}
		for i := 0; i < 2; i++ {
			if _, e := solve(g, cs, true, f.Sat, fmt.Sprintf("time %d", i+1)); e != nil {
				return e
			}
		}
	case 1:
		was := 1
		for q := 1; q <= 4; q++ {
			for _, c := range cs[(q-1)*n/4 : q*n/4] {
				add(g, c)
			}
			// part of a satisfiable formula is satisfiable, more than an unsatisfiable one is not
			known, want := q == 4 || f.Sat || was == -1, f.Sat
			r, e := solve(g, cs[:q*n/4], known, want, fmt.Sprintf("after %d quarters", q))
			if e != nil {
				return e
			}
			was = r
		}
	case 2:
		gd := lit(f.NV*5 + 3) // beyond all names
		for _, c := range cs {
			add(g, c, gd.Not())
		}
		if _, e := solve(g, cs, true, f.Sat, "with the assumption", gd); e != nil {
			return e
		}
		if !f.Sat {
			if ms := g.Why(nil); len(ms) != 1 || ms[0] != gd {
				return fmt.Errorf("failed assumptions are %v, the only one assumed is %s", ms, gd)
			}
		}
		if _, e := solve(g, nil, true, true, "without the assumption"); e != nil {
			return e
		}
		if _, e := solve(g, nil, true, true, "with its negation", gd.Not()); e != nil {
			return e
		}
		if _, e := solve(g, cs, true, f.Sat, "with the assumption again", gd); e != nil {
			return e
		}
	case 3:
		for _, c := range cs[:n/2] {
			add(g, c)
		}
		r, e := solve(g, cs[:n/2], f.Sat, true, "first half")
		if e != nil {
			return e
		}
		o := g.SCopy()
		for _, c := range cs[n/2:] {
			add(g, c)
		}
		if _, e := solve(g, cs, true, f.Sat, "original"); e != nil {
			return e
		}
		if r2, e := solve(o, cs[:n/2], true, r == 1, "copy"); e != nil || r2 != r {
			return e
		}
		for i := n - 1; i >= n/2; i-- {
			add(o, cs[i])
		}
		if _, e := solve(o, cs, true, f.Sat, "copy, completed"); e != nil {
			return e
		}
	case 4:
		// names first: activation literals are taken from beyond them
		mx := 0
		for _, c := range cs {
			for _, l := range c {
				if abs(l) > mx {
					mx = abs(l)
				}
			}
		}
		for g.MaxVar() < z.Var(mx) {
			g.Lit()
		}
		ga := g.(*gini.Gini)
		var acts []z.Lit
		for q := 0; q < 3; q++ {
			a := ga.ActivationLit()
			acts = append(acts, a)
			for _, c := range cs[q*n/3 : (q+1)*n/3] {
				for _, l := range c {
					g.Add(lit(l))
				}
				ga.ActivateWith(a)
			}
		}
		if _, e := solve(g, cs, true, f.Sat, "all thirds", acts...); e != nil {
			return e
		}
		if _, e := solve(g, nil, true, true, "no third"); e != nil {
			return e
		}
		for q := 0; q < 3; q++ {
			part := cs[q*n/3 : (q+1)*n/3]
			if _, e := solve(g, part, f.Sat, true, fmt.Sprintf("third %d", q), acts[q]); e != nil {
				return e
			}
		}
		if _, e := solve(g, cs, true, f.Sat, "all thirds again", acts[2], acts[0], acts[1]); e != nil {
			return e
		}
		ga.Deactivate(acts[1])
		if _, e := solve(g, append(append([][]int{}, cs[:n/3]...), cs[2*n/3:]...), f.Sat, true, "two thirds", acts[0], acts[2]); e != nil {
			return e
		}
	case 5:
		for _, c := range cs {
			add(g, c)
		}
		for i := 0; i < 16; i++ {
			v := 1 + i*(f.NV-1)/15
			any := false
			for _, l := range []int{v, -v} {
				r, e := solve(g, cs, !f.Sat, false, fmt.Sprintf("assuming %d", ren(l)), lit(ren(l)))
				if e != nil {
					return e
				}
				any = any || r == 1
			}
			if any != f.Sat {
				return fmt.Errorf("under variable %d and under its negation: satisfiable %v, should be %v", ren(v), any, f.Sat)
			}
		}
		if _, e := solve(g, cs, true, f.Sat, "at the end"); e != nil {
			return e
		}
	case 6, 7:
		k := 40
		if n < k {
			k = n
		}
		var gs []z.Lit
		grp := map[z.Lit]int{}
		for i := 0; i < k; i++ {
			m := lit(f.NV*5 + 3 + i)
			if i%3 == 1 {
				m = m.Not()
			}
			gs = append(gs, m)
			grp[m] = i
		}
		for i, c := range cs {
			add(g, c, gs[i%k].Not())
		}
		// core: the groups named have no model together
		core := func(ms []z.Lit) error {
			in := map[int]bool{}
			for _, m := range ms {
				in[grp[m]] = true
			}
			o := gini.New()
			var part [][]int
			for i, c := range cs {
				if in[i%k] {
					part = append(part, c)
					add(o, c)
				}
			}
			cov.Trans++
			if o.Solve() == 1 {
				if e := model(o, part); e != nil {
					return e
				}
				return fmt.Errorf("failed assumptions %v do not suffice", ms)
			}
			return nil
		}
		for round := 0; round < 2; round++ {
			if mode == 7 {
				h := k / 2
				g.Assume(gs[:h]...)
				r, _ := g.Test(nil)
				cov.Trans++
				if r == 1 || r == -1 && f.Sat {
					return fmt.Errorf("Test gives %d, satisfiable %v", r, f.Sat)
				}
				if r != -1 {
					g.Assume(gs[h:]...)
					r = g.Solve()
					cov.Trans++
					if (r == 1) != f.Sat || r == 0 {
						return fmt.Errorf("Solve under tested assumptions gives %d, satisfiable %v", r, f.Sat)
					}
					if r == 1 {
						if e := model(g, cs); e != nil {
							return e
						}
					}
				}
				if r == -1 {
					if e := core(g.Why(nil)); e != nil {
						return fmt.Errorf("in a scope: %v", e)
					}
				}
				if r := g.Untest(); r == -1 {
					return fmt.Errorf("Untest gives %d", r)
				}
				if _, e := solve(g, nil, true, true, "after Untest"); e != nil {
					return e
				}
			}
			r, e := solve(g, cs, true, f.Sat, "all groups", gs...)
			if e != nil {
				return e
			}
			if r == 1 {
				continue
			}
			ms := g.Why(nil)
			if e := core(ms); e != nil {
				return e
			}
			if _, e := solve(g, nil, true, true, "no group"); e != nil {
				return e
			}
			for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
				ms[i], ms[j] = ms[j], ms[i]
			}
			if _, e := solve(g, nil, true, false, "the failed groups", ms...); e != nil {
				return e
			}
			if e := core(g.Why(nil)); e != nil {
				return e
			}
		}
	case 8:
		return knownTests(f, cs, ren, g, solve, cov)
	}
	return nil
}

// prop propagates units, on a formula that does not change.
type prop struct {
	cs   [][]int
	occ  map[int][]int32
	val  []int8
	free []int32 // literals not false, per clause
	sat  []int32 // true literals, per clause
}

// closure of some literals; false if there is a conflict.
func (p *prop) closure(as []int) (val []int8, ok bool) {
	for i := range p.val {
		p.val[i] = 0
	}
	var q []int
	ok = true
	set := func(l int) {
		switch x := p.val[abs(l)]; {
		case x == 0:
			p.val[abs(l)] = int8(l / abs(l))
			q = append(q, l)
		case (x > 0) != (l > 0):
			ok = false
		}
	}
	for i, c := range p.cs {
		p.free[i], p.sat[i] = int32(len(c)), 0
		if len(c) == 1 {
			set(c[0])
		}
	}
	for _, a := range as {
		set(a)
	}
	for len(q) > 0 && ok {
		l := q[0]
		q = q[1:]
		for _, i := range p.occ[l] {
			p.sat[i]++
		}
		for _, i := range p.occ[-l] {
			if p.free[i]--; p.free[i] == 0 {
				ok = false
			} else if p.free[i] == 1 && p.sat[i] == 0 {
				for _, x := range p.cs[i] {
					if v := p.val[abs(x)]; v == 0 || (v > 0) == (x > 0) {
						set(x)
						break
					}
				}
			}
		}
	}
	return p.val, ok
}

func knownTests(f *sat.KnownF, cs [][]int, ren func(l int) int, g inter.S, solve func(g inter.S, cs [][]int, known, want bool, what string, as ...z.Lit) (int, error), cov *eng.Cov) error {
	mx := 0
	p := &prop{cs: cs, occ: map[int][]int32{}, free: make([]int32, len(cs)), sat: make([]int32, len(cs))}
	for i, c := range cs {
		for _, l := range c {
			p.occ[l] = append(p.occ[l], int32(i))
			if abs(l) > mx {
				mx = abs(l)
			}
			g.Add(z.Dimacs2Lit(l))
		}
		g.Add(0)
	}
	p.val = make([]int8, mx+1)
	neg := func(ls []int, l int) []int { return append(append([]int{}, ls...), -l) }
	lits := func(ls []int) (r []z.Lit) {
		for _, l := range ls {
			r = append(r, z.Dimacs2Lit(l))
		}
		return
	}
	var other *gini.Gini
	// refuted: not found to be satisfiable, by propagation or by another solver
	// whose model is checked
	refuted := func(as []int) bool {
		if _, ok := p.closure(as); !ok {
			return true
		}
		if other == nil {
			other = gini.New()
			for _, c := range cs {
				for _, l := range c {
					other.Add(z.Dimacs2Lit(l))
				}
				other.Add(0)
			}
		}
		cov.Inc("asked another solver")
		r, e := solve(other, cs, false, false, "", lits(as)...)
		return r != 1 || e != nil
	}
	tests := func(seed int) error {
		var as []int
		var rep []z.Lit
		n := 0
		for n < 4 {
			l := ren(1 + (seed*7+n*n*5+n*3)%f.NV)
			if (seed+n)%2 == 1 {
				l = -l
			}
			as = append(as, l)
			g.Assume(z.Dimacs2Lit(l))
			r, out := g.Test(nil)
			n++
			cov.Trans++
			if r == -1 {
				if !refuted(as) {
					return fmt.Errorf("Test is -1 under %v, but there is a model", as)
				}
				break
			}
			cov.Inc("tests passed")
			val, ok := p.closure(as)
			if !ok {
				return fmt.Errorf("Test is %d under %v, which propagation refutes", r, as)
			}
			val = append([]int8{}, val...)
			for v := 1; v <= mx; v++ {
				if val[v] != 0 && !g.Value(z.Dimacs2Lit(v*int(val[v]))) {
					return fmt.Errorf("Test is %d under %v and misses %d", r, as, v*int(val[v]))
				}
			}
			for _, m := range out {
				if d := m.Dimacs(); abs(d) > mx || !g.Value(m) || r == 0 && val[abs(d)] == 0 && !refuted(neg(as, d)) {
					return fmt.Errorf("Test is %d under %v and reports %d: true %v", r, as, d, g.Value(m))
				}
			}
			if r == 1 {
				for _, c := range cs {
					ok := false
					for _, l := range c {
						ok = ok || g.Value(z.Dimacs2Lit(l))
					}
					if !ok {
						return fmt.Errorf("Test is 1 under %v, but %v is false", as, c)
					}
				}
			}
			rep = append(rep, out...)
			// reasons
			state := map[z.Lit]int{}
			asked := map[int]bool{}
			for _, a := range as {
				asked[a] = true
			}
			type fr struct {
				m  z.Lit
				rs []z.Lit
			}
			for _, m := range rep {
				var st []fr
				push := func(m z.Lit) error {
					switch state[m] {
					case 1:
						return fmt.Errorf("under %v: reasons are cyclic through %s", as, m)
					case 2:
						return nil
					}
					state[m] = 1
					rs := append([]z.Lit{}, g.Reasons(nil, m)...)
					cov.Inc("reasons")
					var rl []int
					for _, x := range rs {
						if !g.Value(x) {
							return fmt.Errorf("under %v: reasons of %s are %v, %s is not true", as, m, rs, x)
						}
						rl = append(rl, x.Dimacs())
					}
					if len(rs) == 0 && asked[m.Dimacs()] {
					} else if r == 1 && len(rs) == 0 {
						// chosen when completing
					} else if !refuted(neg(rl, m.Dimacs())) {
						return fmt.Errorf("under %v: reasons %v do not imply %s", as, rs, m)
					}
					st = append(st, fr{m, rs})
					return nil
				}
				if e := push(m); e != nil {
					return e
				}
				for len(st) > 0 {
					t := &st[len(st)-1]
					if len(t.rs) == 0 {
						state[t.m] = 2
						st = st[:len(st)-1]
						continue
					}
					x := t.rs[0]
					t.rs = t.rs[1:]
					if e := push(x); e != nil {
						return e
					}
				}
			}
		}
		for ; n > 0; n-- {
			as = as[:n-1]
			if g.Untest() == -1 {
				if !refuted(as) {
					return fmt.Errorf("Untest is -1 under %v, but there is a model", as)
				}
				if n > 1 {
					n--
					for ; n > 0; n-- {
						g.Untest()
					}
				}
				break
			}
		}
		return nil
	}
	for round := 0; round < 2; round++ {
		for seed := 0; seed < 6; seed++ {
			if e := tests(seed); e != nil {
				return e
			}
		}
		if _, e := solve(g, cs, true, f.Sat, "after the tests"); e != nil {
			return e
		}
		if !f.Sat {
			break
		}
	}
	return nil
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}
