//go:build vrand

// gens decides C25: the formula generators.
package main

import (
	"fmt"
	"sort"

	"github.com/go-air/gini/gen"
	"github.com/go-air/gini/vrand"
	"github.com/go-air/gini/z"

	"vh/eng"
	"vh/sat"
)

type sink struct {
	cur []int
	cs  [][]int
}

func (s *sink) Add(m z.Lit) {
	if m == z.LitNull {
		s.cs = append(s.cs, s.cur)
		s.cur = nil
		return
	}
	s.cur = append(s.cur, m.Dimacs())
}

func (s *sink) done() error {
	if len(s.cur) != 0 {
		return fmt.Errorf("unfinished clause %v", s.cur)
	}
	return nil
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func (s *sink) maxVar() int {
	m := 0
	for _, c := range s.cs {
		for _, l := range c {
			if abs(l) > m {
				m = abs(l)
			}
		}
	}
	return m
}

// exact: the models of the clauses over n variables are those of want.
func exact(s *sink, n int, want func(v func(i int) bool) bool, cov *eng.Cov) error {
	if e := s.done(); e != nil {
		return e
	}
	if m := s.maxVar(); m > n {
		return fmt.Errorf("variable %d used, there are %d", m, n)
	}
	b := sat.Full(n)
	for _, c := range s.cs {
		b.AndClause(c)
	}
	sats := 0
	for a := uint(0); a < 1<<uint(n); a++ {
		w := want(func(i int) bool { return a>>uint(i-1)&1 == 1 })
		if w {
			sats++
		}
		cov.Trans++
		if g := b.Has(a); g != w {
			return fmt.Errorf("assignment %0*b: is a model %v, should be %v", n, a, g, w)
		}
	}
	if sats > 0 {
		cov.Inc("sat")
	} else {
		cov.Inc("unsat")
	}
	return nil
}

func part(name, desc string, enum func(t eng.Tier, yield func(c []int32) bool), run func(c []int32, cov *eng.Cov) error, show string) *eng.Part {
	return &eng.Part{Name: name, Desc: desc, Enum: enum,
		Run: func(c []int32, cov *eng.Cov) error {
			h := eng.NewH()
			h.S(name)
			for _, x := range c {
				h.I(int(x))
			}
			eng.State(uint64(h))
			e := run(c, cov)
			cov.Traces++
			cov.Nontriv++
			return e
		},
		Show: func(c []int32) string { return fmt.Sprintf("%s%v", show, c) }}
}

func pv(i, k, n int) int { return gen.PartVar(i, k, n).Dimacs() }

// pairs yields (a,b) with b's range as given and a*b within the bound.
func pairs(lo int, q, th int) func(t eng.Tier, yield func(c []int32) bool) {
	return func(t eng.Tier, yield func(c []int32) bool) {
		m := t.Pick(q, th)
		for a := lo; a <= m; a++ {
			for b := lo; b <= m; b++ {
				if a*b <= m && !yield([]int32{int32(a), int32(b)}) {
					return
				}
			}
		}
	}
}

func triplesIn(n int) (out [][3]int) {
	for b := 2; b < n; b++ {
		for a := 1; a < b; a++ {
			for c := b + 1; c <= n && c*c <= a*a+b*b; c++ {
				if c*c == a*a+b*b {
					out = append(out, [3]int{a, b, c})
				}
			}
		}
	}
	return
}

// ext decides by search whether the clauses have a model extending vals.
func ext(cs [][]int, val []int8) bool {
	for {
		changed := false
		var pick int
		for _, c := range cs {
			un, last, satd := 0, 0, false
			for _, l := range c {
				x := val[abs(l)]
				if x == 0 {
					un++
					last = l
				} else if (x > 0) == (l > 0) {
					satd = true
					break
				}
			}
			if satd {
				continue
			}
			if un == 0 {
				return false
			}
			if un == 1 {
				val[abs(last)] = int8(last / abs(last))
				changed = true
			} else if pick == 0 {
				pick = last
			}
		}
		if changed {
			continue
		}
		if pick == 0 {
			return true
		}
		for _, s := range []int8{1, -1} {
			v2 := append([]int8{}, val...)
			v2[abs(pick)] = s
			if ext(cs, v2) {
				return true
			}
		}
		return false
	}
}

// choices runs f once for every script of random choices (the first max of
// them varied over everything).
func choices(max int, cov *eng.Cov, f func() error) (err error) {
	vrand.On = true
	vrand.Limit = 4000
	defer func() { vrand.On = false }()
	var script []int
	for {
		vrand.Reset(script)
		e := func() (e error) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(vrand.Over); ok {
						e = fmt.Errorf("more than %d random choices", vrand.Limit)
						return
					}
					panic(r)
				}
			}()
			return f()
		}()
		cov.Trans++
		cov.Inc("choice_sequences")
		if e != nil {
			return fmt.Errorf("random choices %v: %v", vrand.Used, e)
		}
		var ok bool
		if script, ok = vrand.Next(max); !ok {
			return nil
		}
	}
}

func checkGraph(g [][]int, n, m int) error {
	if m > n*(n-1)/2 {
		if g != nil {
			return fmt.Errorf("a graph with too many edges: %v", g)
		}
		return nil
	}
	if len(g) != n {
		return fmt.Errorf("%d nodes, not %d", len(g), n)
	}
	seen := map[[2]int]bool{}
	for a, es := range g {
		for _, b := range es {
			if b < 0 || b >= n || b == a {
				return fmt.Errorf("edge %d-%d in %v", a, b, g)
			}
			if seen[[2]int{a, b}] {
				return fmt.Errorf("edge %d-%d twice in %v", a, b, g)
			}
			seen[[2]int{a, b}] = true
		}
	}
	for e := range seen {
		if !seen[[2]int{e[1], e[0]}] {
			return fmt.Errorf("edge %d-%d but not back in %v", e[0], e[1], g)
		}
	}
	if len(seen) != 2*m {
		return fmt.Errorf("%d directed edges in %v, not %d", len(seen), g, 2*m)
	}
	return nil
}

func graphs(t eng.Tier, yield func(c []int32) bool) {
	for n := 0; n <= t.Pick(5, 6); n++ {
		for m := 0; m <= n*(n-1)/2+1; m++ {
			if n >= 5 && m > t.Pick(4, 5) && m <= n*(n-1)/2 {
				// the last choices are varied less
			}
			if !yield([]int32{int32(n), int32(m)}) {
				return
			}
		}
	}
}

func maxChoices(n, m int) int {
	e := n * (n - 1) / 2
	k, p := 0, 1
	for k < m && e-k > 0 && p*(e-k) <= 60000 {
		p *= e - k
		k++
	}
	return k
}

func main() {
	eng.Main(&eng.Prop{ID: "C25", Level: "model_checking",
		Notes: []string{"models compared with a direct statement of the named problem over all assignments", "random choices (math/rand) replaced by scripted ones which are enumerated; the instrumented build differs from the source in that import only"},
		Parts: append(bigParts(), []*eng.Part{
			part("php", "Php(P,H) for all P, H from 0 with P*H up to 16 (thorough 20), all assignments: every pigeon in some hole, no two in one", pairs(0, 16, 20), func(c []int32, cov *eng.Cov) error {
				P, H := int(c[0]), int(c[1])
				var s sink
				gen.Php(&s, P, H)
				return exact(&s, P*H, func(v func(int) bool) bool {
					for i := 0; i < P; i++ {
						some := false
						for h := 0; h < H; h++ {
							some = some || v(pv(i, h, P))
						}
						if !some {
							return false
						}
					}
					for h := 0; h < H; h++ {
						k := 0
						for i := 0; i < P; i++ {
							if v(pv(i, h, P)) {
								k++
							}
						}
						if k > 1 {
							return false
						}
					}
					return true
				}, cov)
			}, "Php"),
			part("partition", "Partition(n,k) for all n, k from 0 with n*k up to 16 (thorough 20), all assignments: PartVar gives every element exactly one part, under different variables", pairs(0, 16, 20), func(c []int32, cov *eng.Cov) error {
				n, k := int(c[0]), int(c[1])
				seen := map[int]bool{}
				for i := 0; i < n; i++ {
					for p := 0; p < k; p++ {
						x := pv(i, p, n)
						if x < 1 || x > n*k || seen[x] {
							return fmt.Errorf("PartVar(%d,%d,%d)=%d", i, p, n, x)
						}
						seen[x] = true
					}
				}
				var s sink
				gen.Partition(&s, n, k)
				return exact(&s, n*k, func(v func(int) bool) bool {
					for i := 0; i < n; i++ {
						q := 0
						for p := 0; p < k; p++ {
							if v(pv(i, p, n)) {
								q++
							}
						}
						if q != 1 {
							return false
						}
					}
					return true
				}, cov)
			}, "Partition"),
			part("bincycle", "BinCycle(n), n from 1 to 16 (thorough 20), all assignments: all variables equal", func(t eng.Tier, yield func(c []int32) bool) {
				for n := int32(1); n <= int32(t.Pick(16, 20)); n++ {
					if !yield([]int32{n}) {
						return
					}
				}
			}, func(c []int32, cov *eng.Cov) error {
				n := int(c[0])
				var s sink
				gen.BinCycle(&s, n)
				return exact(&s, n, func(v func(int) bool) bool {
					for i := 2; i <= n; i++ {
						if v(i) != v(1) {
							return false
						}
					}
					return true
				}, cov)
			}, "BinCycle"),
			part("pytriples", "PyTriples(n,k) for all n from 1, k with n*k up to 20 (thorough 22), all assignments: partitions of 1..n with no Pythagorean triple inside a part", pairs(1, 20, 22), func(c []int32, cov *eng.Cov) error {
				n, k := int(c[0]), int(c[1])
				var s sink
				gen.PyTriples(&s, n, k)
				ts := triplesIn(n)
				return exact(&s, n*k, func(v func(int) bool) bool {
					col := make([]int, n+1)
					for i := 0; i < n; i++ {
						q := 0
						for p := 0; p < k; p++ {
							if v(pv(i, p, n)) {
								q++
								col[i+1] = p
							}
						}
						if q != 1 {
							return false
						}
					}
					for _, t := range ts {
						if col[t[0]] == col[t[1]] && col[t[1]] == col[t[2]] {
							return false
						}
					}
					return true
				}, cov)
			}, "PyTriples"),
			part("pybig", "PyTriples(n,k) for n up to 17 with k=2 and n up to 10 with k=3: every partition, and every partition with one membership changed", func(t eng.Tier, yield func(c []int32) bool) {
				for n := int32(9); n <= int32(t.Pick(15, 18)); n++ {
					if !yield([]int32{n, 2}) {
						return
					}
				}
				for n := int32(5); n <= int32(t.Pick(9, 11)); n++ {
					if !yield([]int32{n, 3}) {
						return
					}
				}
			}, func(c []int32, cov *eng.Cov) error {
				n, k := int(c[0]), int(c[1])
				var s sink
				gen.PyTriples(&s, n, k)
				if e := s.done(); e != nil {
					return e
				}
				ts := triplesIn(n)
				val := make([]bool, s.maxVar()+n*k+1)
				eval := func() bool {
					for _, c := range s.cs {
						ok := false
						for _, l := range c {
							if val[abs(l)] == (l > 0) {
								ok = true
								break
							}
						}
						if !ok {
							return false
						}
					}
					return true
				}
				col := make([]int, n+1)
				for {
					for i := range val {
						val[i] = false
					}
					for i := 1; i <= n; i++ {
						val[pv(i-1, col[i], n)] = true
					}
					want := true
					for _, t := range ts {
						if col[t[0]] == col[t[1]] && col[t[1]] == col[t[2]] {
							want = false
						}
					}
					cov.Trans++
					if g := eval(); g != want {
						return fmt.Errorf("partition %v: is a model %v, should be %v", col[1:], g, want)
					}
					for v := 1; v <= n*k; v++ {
						val[v] = !val[v]
						if eval() {
							return fmt.Errorf("partition %v with membership %d changed is a model", col[1:], v)
						}
						val[v] = !val[v]
					}
					i := 1
					for ; i <= n; i++ {
						col[i]++
						if col[i] < k {
							break
						}
						col[i] = 0
					}
					if i > n {
						return nil
					}
				}
			}, "PyTriples"),
			part("py2", "Py2Triples(n) for n up to 16 (thorough 20): every 2-colouring of 1..n extends to a model exactly if it has no Pythagorean triple of one colour", func(t eng.Tier, yield func(c []int32) bool) {
				for n := int32(1); n <= int32(t.Pick(16, 20)); n++ {
					if !yield([]int32{n}) {
						return
					}
				}
			}, func(c []int32, cov *eng.Cov) error {
				n := int(c[0])
				var s sink
				gen.Py2Triples(&s, n)
				if e := s.done(); e != nil {
					return e
				}
				ts := triplesIn(n)
				mx := s.maxVar()
				if mx < n {
					mx = n
				}
				for a := 0; a < 1<<uint(n); a++ {
					val := make([]int8, mx+1)
					for i := 1; i <= n; i++ {
						val[i] = int8(a>>uint(i-1)&1)*2 - 1
					}
					want := true
					for _, t := range ts {
						if val[t[0]] == val[t[1]] && val[t[1]] == val[t[2]] {
							want = false
						}
					}
					cov.Trans++
					if g := ext(s.cs, val); g != want {
						return fmt.Errorf("colouring %0*b: extends to a model %v, should be %v", n, a, g, want)
					}
				}
				return nil
			}, "Py2Triples"),
			py2big(),
			part("graph", "RandGraph(n,m) for n up to 5 (thorough 6), all m and one more: every sequence of random choices (up to 60000 per pair): simple, symmetric, m edges", graphs, func(c []int32, cov *eng.Cov) error {
				n, m := int(c[0]), int(c[1])
				return choices(maxChoices(n, m), cov, func() error { return checkGraph(gen.RandGraph(n, m), n, m) })
			}, "RandGraph"),
			part("color", "RandColor(n,m,k) for n*k up to 12, all m: every sequence of random choices (up to 60000): the models are exactly the colourings (each node at least one colour, adjacent nodes none in common) of some graph with m edges", func(t eng.Tier, yield func(c []int32) bool) {
				for n := 1; n <= t.Pick(4, 5); n++ {
					for k := 1; n*k <= t.Pick(9, 12); k++ {
						for m := 0; m <= n*(n-1)/2; m++ {
							if !yield([]int32{int32(n), int32(m), int32(k)}) {
								return
							}
						}
					}
				}
			}, func(c []int32, cov *eng.Cov) error {
				n, m, k := int(c[0]), int(c[1]), int(c[2])
				done := map[string]bool{}
				return choices(maxChoices(n, m), cov, func() error {
					var s sink
					gen.RandColor(&s, n, m, k)
					key := fmt.Sprint(s.cs)
					if done[key] {
						return nil
					}
					done[key] = true
					if e := s.done(); e != nil {
						return e
					}
					if x := s.maxVar(); x > n*k {
						return fmt.Errorf("variable %d used, there are %d", x, n*k)
					}
					b := sat.Full(n * k)
					for _, c := range s.cs {
						b.AndClause(c)
					}
					v := func(a, c int) int { return a*k + c + 1 }
					// the graph: nodes which cannot share the first colour
					nodes := sat.Full(n * k)
					for a := 0; a < n; a++ {
						var cl []int
						for c := 0; c < k; c++ {
							cl = append(cl, v(a, c))
						}
						nodes.AndClause(cl)
					}
					edges := 0
					var es [][2]int
					for a := 0; a < n; a++ {
						for d := a + 1; d < n; d++ {
							for _, cl := range s.cs {
								has := map[int]bool{}
								for _, l := range cl {
									has[l] = true
								}
								if has[-v(a, 0)] && has[-v(d, 0)] {
									edges++
									es = append(es, [2]int{a, d})
									break
								}
							}
						}
					}
					if edges != m {
						return fmt.Errorf("clauses %v are about %d edges, not %d", s.cs, edges, m)
					}
					for _, e := range es {
						for c := 0; c < k; c++ {
							nodes.AndClause([]int{-v(e[0], c), -v(e[1], c)})
						}
					}
					if !sat.Equal(b, nodes) {
						return fmt.Errorf("clauses %v: their models are not the colourings of the graph %v", s.cs, es)
					}
					return nil
				})
			}, "RandColor"),
			part("rand3", "Rand3Cnf(n,m) for n from 3 to 5 (thorough 7), m up to 3: every sequence of the first 6 (for one clause 7) random choices; HardRand3Cnf(n) the first 3", func(t eng.Tier, yield func(c []int32) bool) {
				for n := 3; n <= t.Pick(5, 7); n++ {
					for m := -1; m <= 3; m++ {
						if !yield([]int32{int32(n), int32(m)}) {
							return
						}
					}
				}
			}, func(c []int32, cov *eng.Cov) error {
				n, m := int(c[0]), int(c[1])
				// all choices of the first clause, then of the later ones
				max := 6
				if n > 4 {
					max = 5
				}
				if m < 0 {
					max = 3
				}
				return choices(max, cov, func() error {
					var s sink
					want := m
					if m < 0 {
						gen.HardRand3Cnf(&s, n)
						want = 4 * n
					} else {
						gen.Rand3Cnf(&s, n, m)
					}
					if e := s.done(); e != nil {
						return e
					}
					if len(s.cs) != want {
						return fmt.Errorf("%d clauses, not %d", len(s.cs), want)
					}
					for _, cl := range s.cs {
						if len(cl) != 3 {
							return fmt.Errorf("clause %v", cl)
						}
						x := []int{abs(cl[0]), abs(cl[1]), abs(cl[2])}
						sort.Ints(x)
						if x[0] == x[1] || x[1] == x[2] || x[0] < 1 || x[2] > n {
							return fmt.Errorf("clause %v: not three different variables of 1..%d", cl, n)
						}
					}
					return nil
				})
			}, "Rand3Cnf"),
			part("cubes", "RandCube of cubers with maximum sizes 1..3 and maximum variables 1..4: two cubes, every sequence of the first 6 random choices: different variables, within bounds", func(t eng.Tier, yield func(c []int32) bool) {
				for s := int32(1); s <= 3; s++ {
					for v := int32(1); v <= 4; v++ {
						if !yield([]int32{s, v}) {
							return
						}
					}
				}
			}, func(c []int32, cov *eng.Cov) error {
				return choices(6, cov, func() error {
					r := gen.NewRandCuber(int(c[0]), z.Var(c[1]))
					var dst []z.Lit
					for round := 0; round < 2; round++ {
						dst = r.RandCube(dst)
						if len(dst) > int(c[0]) || len(dst) < 1 {
							return fmt.Errorf("cube %v", dst)
						}
						seen := map[z.Var]bool{}
						for _, m := range dst {
							if seen[m.Var()] || m.Var() < 1 || m.Var() > z.Var(c[1]) {
								return fmt.Errorf("cube %v", dst)
							}
							seen[m.Var()] = true
						}
					}
					return nil
				})
			}, "RandCuber"),
		}...)})
}

// py2big: for larger n, every triple within 1..n must be excluded.
func py2big() *eng.Part {
	p := part("py2big", "Py2Triples(n) for every n up to 1000: no Pythagorean triple within 1..n may have one colour (both colours of every triple refuted by unit propagation)", func(t eng.Tier, yield func(c []int32) bool) {
		for n := int32(1); n <= int32(t.Pick(1000, 2000)); n++ {
			if !yield([]int32{n}) {
				return
			}
		}
	}, func(c []int32, cov *eng.Cov) error {
		n := int(c[0])
		var s sink
		gen.Py2Triples(&s, n)
		if e := s.done(); e != nil {
			return e
		}
		occ := map[int][][]int{}
		for _, c := range s.cs {
			for _, l := range c {
				occ[l] = append(occ[l], c)
			}
		}
		refuted := func(ls [3]int) bool {
			for _, c := range occ[-ls[0]] {
				all := true
				for _, l := range c {
					all = all && (l == -ls[0] || l == -ls[1] || l == -ls[2])
				}
				if all {
					return true
				}
			}
			return false
		}
		var miss [][3]int
		for _, t := range triplesIn(n) {
			cov.Trans++
			if !refuted(t) || !refuted([3]int{-t[0], -t[1], -t[2]}) {
				miss = append(miss, t)
			}
		}
		if miss != nil {
			return fmt.Errorf("not excluded: %v", miss)
		}
		return nil
	}, "Py2Triples")
	p.Known = func(c []int32, e error) string {
		// The first n triples, ordered by their second element, are used: from
		// n=870 on these do not include all within 1..n.
		n := int(c[0])
		var ts [][3]int
		for _, t := range triplesIn(2*n + 40) {
			ts = append(ts, t)
		}
		// triplesIn is ordered by second element then first, but it only has
		// triples up to its bound; those needed have second elements below n
		k := 0
		var miss [][3]int
		for _, t := range ts {
			k++
			if k > n && t[2] <= n {
				miss = append(miss, t)
			}
		}
		if len(miss) > 0 && fmt.Sprintf("not excluded: %v", miss) == e.Error() {
			return "py2triples-first-n"
		}
		return ""
	}
	return p
}
