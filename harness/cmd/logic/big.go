package main

import (
	"fmt"

	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/z"

	"vh/eng"
)

func evalOwn(c *logic.C, vs []bool) {
	for i := 2; i < len(vs); i++ {
		if a, b := c.Ins(c.At(i)); a != z.LitNull {
			vs[i] = vs[a.Var()] == a.IsPos() && vs[b.Var()] == b.IsPos()
		}
	}
}

// longLists: Ands and Ors of long lists.
func longLists() *eng.Part {
	return &eng.Part{
		Name: "long-lists", Desc: "Ands and Ors of lists of 6 to 140 literals over as many inputs of mixed signs, every position replaced by a constant, a repetition or a negation of another one (or none), 2 capacities; values where all literals are true, all false, and all but one, for every one; the same list gives the same literal again",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for n := int32(6); n <= 140; n++ {
				for p := int32(0); p < n; p++ {
					for k := int32(0); k < 5; k++ {
						if k == 0 && p > 0 {
							continue
						}
						if !yield([]int32{n, p, k}) {
							return
						}
					}
				}
			}
		},
		Run: func(cs []int32, cov *eng.Cov) error {
			n, p := int(cs[0]), int(cs[1])
			c := logic.NewCCap([]int{0, 300}[(n+p)%2])
			ms := make([]z.Lit, n)
			for i := range ms {
				ms[i] = c.Lit()
				if i%3 == 1 {
					ms[i] = ms[i].Not()
				}
			}
			switch q := (p*7 + 3) % n; cs[2] {
			case 1:
				ms[p] = c.T
			case 2:
				ms[p] = c.F
			case 3:
				ms[p] = ms[q]
			case 4:
				ms[p] = ms[q].Not()
			}
			keep := append([]z.Lit{}, ms...)
			and, or := c.Ands(ms...), c.Ors(ms...)
			for i := range ms {
				if ms[i] != keep[i] {
					return fmt.Errorf("the caller's list %v was changed to %v", keep, ms)
				}
			}
			sz := c.Len()
			if a, o := c.Ands(ms...), c.Ors(ms...); a != and || o != or || c.Len() != sz {
				return fmt.Errorf("asked for again, Ands is %s, was %s, Ors is %s, was %s", a, and, o, or)
			}
			for k := -2; k < n; k++ { // literal k is different
				for _, base := range []bool{true, false} {
					vs := make([]bool, c.Len())
					vs[1] = true
					for i, m := range ms {
						if m != c.T && m != c.F {
							vs[m.Var()] = (base != (i == k)) == m.IsPos()
						}
					}
					own := append([]bool{}, vs...)
					evalOwn(c, own)
					wa, wo := true, false
					for _, m := range ms {
						x := own[m.Var()] == m.IsPos()
						wa = wa && x
						wo = wo || x
					}
					cov.Trans += 2
					if g := own[and.Var()] == and.IsPos(); g != wa {
						return fmt.Errorf("Ands of %d literals is %v, should be %v", n, g, wa)
					}
					if g := own[or.Var()] == or.IsPos(); g != wo {
						return fmt.Errorf("Ors of %d literals is %v, should be %v", n, g, wo)
					}
					if k < 0 || k%16 == 0 {
						c.Eval(vs)
						for i := 1; i < len(vs); i++ {
							if vs[i] != own[i] {
								return fmt.Errorf("Eval gives node %d the value %v", i, vs[i])
							}
						}
					}
				}
			}
			h := eng.NewH()
			h.I(c.Len())
			h.I(int(and))
			h.I(p)
			eng.State(uint64(h))
			cov.Nontriv++
			cov.Traces++
			return nil
		},
	}
}

// many: circuits of thousands of gates.
func many() *eng.Part {
	return &eng.Part{
		Name: "many", Desc: fmt.Sprintf("up to 40000 gates over %d inputs in 6 patterns with 5 capacity hints, copied half way or not: every gate has its function under all assignments (Eval and Eval64), and asked for again, in both orders, is the same literal", nIn),
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for _, n := range []int32{100, 250, 520, 1030, 3000, 10000, 40000} {
				for k := int32(0); k < 60; k++ {
					if !yield([]int32{n, k}) {
						return
					}
				}
			}
		},
		Run: func(cs []int32, cov *eng.Cov) error {
			c, ls, gs := bigC(cs, nil)
			sz := c.Len()
			for i, g := range gs {
				if m := c.And(g.b, g.a); m != g.m {
					return fmt.Errorf("gate %d: And(%s,%s) was %s and is now %s", i, g.b, g.a, g.m, m)
				}
				if m := c.And(g.a, g.b); m != g.m {
					return fmt.Errorf("gate %d: And(%s,%s) was %s and is now %s", i, g.a, g.b, g.m, m)
				}
			}
			if c.Len() != sz {
				return fmt.Errorf("asking for existing gates made new ones")
			}
			for w := 0; w < 1<<(nIn-6); w++ {
				vs := make([]uint64, sz)
				bs := make([]bool, sz)
				for i := 0; i < nIn; i++ {
					v := uint64(0)
					if i < 6 {
						v = lanes[i]
					} else if w>>uint(i-6)&1 == 1 {
						v = ^v
					}
					vs[ls[i].Var()] = v
					bs[ls[i].Var()] = v>>uint(w*5)&1 == 1
				}
				own := append([]uint64{}, vs...)
				own[1] = ^uint64(0)
				val := func(m z.Lit) uint64 {
					if m.IsPos() {
						return own[m.Var()]
					}
					return ^own[m.Var()]
				}
				for _, g := range gs {
					x := val(g.a) & val(g.b)
					if !g.m.IsPos() {
						x = ^x
					}
					own[g.m.Var()] = x
				}
				c.Eval64(vs)
				c.Eval(bs)
				for _, g := range gs {
					v := g.m.Var()
					if x := val(g.a) & val(g.b); x != val(g.m) {
						return fmt.Errorf("And(%s,%s) is %s, which has another function", g.a, g.b, g.m)
					}
					cov.Trans += 2
					if vs[v] != own[v] || bs[v] != (own[v]>>uint(w*5)&1 == 1) {
						return fmt.Errorf("gate %s = And(%s,%s): Eval64 %016x, Eval %v, should be %016x", g.m, g.a, g.b, vs[v], bs[v], own[v])
					}
				}
			}
			h := eng.NewH()
			h.I(sz)
			h.I(int(cs[1]))
			eng.State(uint64(h))
			cov.Nontriv++
			cov.Traces++
			return nil
		},
	}
}

type gate struct{ a, b, m z.Lit }

const nIn = 9

// bigC builds a circuit of cs[0] gates; f is called after each.
func bigC(cs []int32, f func(c *logic.C, gs []gate)) (c *logic.C, ls []z.Lit, gs []gate) {
	n, pat, cp := int(cs[0]), int(cs[1])%6, cs[1]/6%2 == 1
	c = logic.NewCCap([]int{0, 1, 31, 128, 5000}[cs[1]/12])
	for i := 0; i < nIn; i++ {
		ls = append(ls, c.Lit())
	}
	seen := map[[2]z.Lit]bool{}
	x := uint64(pat + 1)
	next := func() int {
		x += 0x9e3779b97f4a7c15
		y := (x ^ x>>30) * 0xbf58476d1ce4e5b9
		y = (y ^ y>>27) * 0x94d049bb133111eb
		return int(y >> 33)
	}
	for i := 0; len(gs) < n; i++ {
		var a, b z.Lit
		switch pat {
		case 0: // anything
			a, b = ls[next()%len(ls)], ls[next()%len(ls)]
		case 1: // a chain
			a, b = ls[len(ls)-1], ls[i%nIn]
		case 2: // all pairs in turn, late ones first
			a, b = ls[len(ls)-1-i%7], ls[i%len(ls)]
		case 3: // among the first
			a, b = ls[next()%min(len(ls), 40+n/20)], ls[next()%min(len(ls), 40+n/20)]
		case 4: // among the last
			a, b = ls[len(ls)-1-next()%min(len(ls), 40)], ls[len(ls)-1-next()%min(len(ls), 40)]
		case 5: // with one literal
			a, b = ls[next()%nIn], ls[next()%len(ls)]
		}
		if r := next(); r&1 == 1 {
			a = a.Not()
			if r&2 == 2 {
				b = b.Not()
			}
		}
		if a > b {
			a, b = b, a
		}
		if a.Var() == b.Var() || seen[[2]z.Lit{a, b}] {
			if i > 40*n {
				break
			}
			continue
		}
		seen[[2]z.Lit{a, b}] = true
		if cp && len(gs) == n/2 {
			old := c
			c = old.Copy()
			for j := 0; j < 50; j++ {
				old.And(old.Lit(), ls[next()%len(ls)])
			}
		}
		m := c.And(a, b)
		gs = append(gs, gate{a, b, m})
		if f != nil {
			f(c, gs)
		}
		ls = append(ls, m)
	}
	return
}

// manyCnf: CNF of circuits of thousands of gates.
func manyCnf() *eng.Part {
	return &eng.Part{
		Name: "many", Desc: fmt.Sprintf("circuits of up to 10000 gates over %d inputs in 6 patterns with 5 capacity hints, copied half way or not: ToCnf, ToCnfFrom the last gates, CnfSince after every 1/8 of the circuit with 3 ways of handing back the marks; the clauses are over the cone of what was asked for, hold in the model of the circuit under every assignment, and force every gate of the cone, given the nodes before it", nIn),
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for _, n := range []int32{40, 100, 250, 520, 1030, 3000, 10000} {
				for k := int32(0); k < 60; k++ {
					for s := int32(0); s < 5; s++ {
						if !yield([]int32{n, k, s}) {
							return
						}
					}
				}
			}
		},
		Run: func(cs []int32, cov *eng.Cov) error {
			var s sink
			var mark []int8
			var roots []z.Lit
			var err error
			c, ls, gs := bigC(cs, func(c *logic.C, gs []gate) {
				if k := len(gs); cs[2] >= 2 && (k%(int(cs[0])/8) == 0 || k < 4) {
					rs := []z.Lit{gs[k/2].m, gs[k-1].m.Not(), gs[k-1-k/3].m}
					roots = append(roots, rs...)
					if cs[2] == 3 && mark != nil {
						mark = append(make([]int8, 0, len(mark)), mark...)
					} else if cs[2] == 4 && mark != nil {
						mark = append(make([]int8, 0, 3*len(mark)), mark...)
						for i := len(mark); i < cap(mark); i++ {
							mark[:cap(mark)][i] = 1 // not a mark
						}
					}
					before := len(s.cs)
					var n int
					mark, n = c.CnfSince(&s, mark, rs...)
					if len(mark) < c.Len() || (n == 0) != (len(s.cs) == before) {
						err = fmt.Errorf("CnfSince: marks for %d of %d nodes, count %d, %d clauses", len(mark), c.Len(), n, len(s.cs)-before)
					}
				}
			})
			switch cs[2] {
			case 0:
				c.ToCnf(&s)
				for _, g := range gs {
					roots = append(roots, g.m)
				}
			case 1:
				roots = []z.Lit{gs[len(gs)-1].m, gs[len(gs)/2].m.Not(), gs[len(gs)/3].m}
				c.ToCnfFrom(&s, roots...)
			}
			if err != nil {
				return err
			}
			sz := c.Len()
			cone := make([]bool, sz)
			cone[1] = true
			q := append([]z.Lit{}, roots...)
			for len(q) > 0 {
				m := q[len(q)-1]
				q = q[:len(q)-1]
				if m == z.LitNull || cone[m.Var()] {
					continue
				}
				cone[m.Var()] = true
				a, b := c.Ins(m)
				q = append(q, a, b)
			}
			seen := map[[3]z.Lit]bool{}
			for _, cl := range s.cs {
				var k [3]z.Lit
				for _, m := range cl {
					if m == z.LitNull || int(m.Var()) >= sz || !cone[m.Var()] {
						return fmt.Errorf("clause %v: %s is not a node that was asked for", cl, m)
					}
					for i := range k {
						if m > k[i] {
							m, k[i] = k[i], m
						}
					}
				}
				if len(cl) <= 3 && seen[k] {
					return fmt.Errorf("clause %v was added before", cl)
				}
				seen[k] = true
			}
			for w := 0; w < 1<<(nIn-6); w++ {
				own := make([]uint64, sz)
				own[1] = ^uint64(0)
				val := func(m z.Lit) uint64 {
					if m.IsPos() {
						return own[m.Var()]
					}
					return ^own[m.Var()]
				}
				for i := 0; i < nIn; i++ {
					if i < 6 {
						own[ls[i].Var()] = lanes[i]
					} else if w>>uint(i-6)&1 == 1 {
						own[ls[i].Var()] = ^uint64(0)
					}
				}
				for i := 2; i < sz; i++ {
					if a, b := c.Ins(c.At(i)); a != z.LitNull {
						own[i] = val(a) & val(b)
					}
				}
				forced := make([]uint64, sz)
				for _, cl := range s.cs {
					var top z.Var
					for _, m := range cl {
						if m.Var() > top {
							top = m.Var()
						}
					}
					all, rest := uint64(0), uint64(0)
					for _, m := range cl {
						all |= val(m)
						if m.Var() != top {
							rest |= val(m)
						}
					}
					cov.Trans++
					if ^all != 0 {
						return fmt.Errorf("clause %v does not hold in the model of the circuit", cl)
					}
					forced[top] |= ^rest
				}
				for i := 1; i < sz; i++ {
					if a, _ := c.Ins(c.At(i)); cone[i] && (i == 1 || a != z.LitNull) && ^forced[i] != 0 {
						return fmt.Errorf("node %d is not defined by the clauses", i)
					}
				}
			}
			h := eng.NewH()
			h.I(sz)
			h.I(int(cs[1]))
			h.I(int(cs[2]))
			eng.State(uint64(h))
			cov.Nontriv++
			cov.Traces++
			return nil
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("%d gates, pattern %d, copied %v, capacity %d, conversion %d", c[0], c[1]%6, c[1]/6%2 == 1, c[1]/12, c[2])
		},
	}
}

// wideCard: counters over long lists.
func wideCard() *eng.Part {
	return &eng.Part{
		Name: "wide", Desc: "lists of 14 to 140 inputs of mixed signs, one of them replaced by a constant, a repetition or a negation of another one (or none); every bound from -1 to n+1 under 64 assignments each with every number of true literals: the first k, the last k, every other one, k spread by a fixed table",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for n := int32(14); n <= 140; n++ {
				if n > 40 && n%8 > 1 && n%8 < 7 && t == eng.Quick {
					continue
				}
				for k := int32(0); k < 5; k++ {
					if !yield([]int32{n, k}) {
						return
					}
				}
			}
		},
		Run: func(cs []int32, cov *eng.Cov) error {
			n := int(cs[0])
			c := logic.NewCCap(n)
			var ins []z.Lit
			ms := make([]z.Lit, n)
			for i := range ms {
				ms[i] = c.Lit()
				ins = append(ins, ms[i])
				if i%3 == 1 {
					ms[i] = ms[i].Not()
				}
			}
			switch p, q := n/3, n-2; cs[1] {
			case 1:
				ms[p] = c.T
			case 2:
				ms[p] = c.F
			case 3:
				ms[p] = ms[q]
			case 4:
				ms[p] = ms[q].Not()
			}
			keep := append([]z.Lit{}, ms...)
			s := c.CardSort(ms)
			type q struct{ leq, geq, less, gr z.Lit }
			var qs []q
			for k := -1; k <= n+1; k++ {
				qs = append(qs, q{s.Leq(k), s.Geq(k), s.Less(k), s.Gr(k)})
			}
			for base := 0; base < 4*(n+1); base += 64 {
				vs := make([]uint64, c.Len())
				vs[1] = ^uint64(0)
				for i, m := range ins {
					for l := 0; l < 64; l++ {
						k := (base + l) / 4 % (n + 1)
						on := false
						switch l & 3 {
						case 0:
							on = i < k
						case 1:
							on = i >= n-k
						case 2:
							on = i*2%(n|1) < k
						case 3:
							on = i*37%(n|1)*n/(n|1) < k
						}
						if on {
							vs[m.Var()] |= 1 << uint(l)
						}
					}
				}
				c.Eval64(vs)
				vs[1] = ^uint64(0)
				val := func(m z.Lit, l int) bool { return vs[m.Var()]>>uint(l)&1 == 1 == m.IsPos() }
				for l := 0; l < 64; l++ {
					cnt := 0
					for _, m := range keep {
						if val(m, l) {
							cnt++
						}
					}
					for i, x := range qs {
						k := i - 1
						cov.Trans++
						if val(x.leq, l) != (cnt <= k) || val(x.geq, l) != (cnt >= k) || val(x.less, l) != (cnt < k) || val(x.gr, l) != (cnt > k) {
							return fmt.Errorf("%d of %d literals true: Leq(%d) %v Geq %v Less %v Gr %v", cnt, n, k, val(x.leq, l), val(x.geq, l), val(x.less, l), val(x.gr, l))
						}
					}
				}
			}
			h := eng.NewH()
			h.I(c.Len())
			h.I(int(cs[1]))
			eng.State(uint64(h))
			cov.Nontriv++
			cov.Traces++
			return nil
		},
		Show: func(c []int32) string { return fmt.Sprintf("%d literals, variant %d", c[0], c[1]) },
	}
}
