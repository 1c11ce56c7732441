//go:build vrand

package main

import (
	"fmt"

	"github.com/go-air/gini/gen"
	"github.com/go-air/gini/vrand"
	"github.com/go-air/gini/z"

	"vh/eng"
)

// ev evaluates clauses under an assignment that changes one variable at a time.
type ev struct {
	n     int
	occ   [][]int32 // of literal v+v (positive), v+v+1
	nt    []int32   // true literals of each clause
	unsat int
	val   []bool
}

func idx(l int) int {
	if l < 0 {
		return -2*l + 1
	}
	return 2 * l
}

// newEv has n variables, all false.
func newEv(s *sink, n int) (*ev, error) {
	if e := s.done(); e != nil {
		return nil, e
	}
	if m := s.maxVar(); m > n {
		return nil, fmt.Errorf("variable %d used, there are %d", m, n)
	}
	x := &ev{n: n, occ: make([][]int32, 2*n+2), nt: make([]int32, len(s.cs)), val: make([]bool, n+1)}
	for i, c := range s.cs {
		k := int32(0)
		for _, l := range c {
			x.occ[idx(l)] = append(x.occ[idx(l)], int32(i))
			if l < 0 {
				k++
			}
		}
		if x.nt[i] = k; k == 0 {
			x.unsat++
		}
	}
	return x, nil
}

func (x *ev) flip(v int) {
	on, off := 2*v, 2*v+1
	if x.val[v] {
		on, off = off, on
	}
	x.val[v] = !x.val[v]
	for _, i := range x.occ[on] {
		if x.nt[i]++; x.nt[i] == 1 {
			x.unsat--
		}
	}
	for _, i := range x.occ[off] {
		if x.nt[i]--; x.nt[i] == 0 {
			x.unsat++
		}
	}
}

func (x *ev) set(f func(v int) bool) {
	for v := 1; v <= x.n; v++ {
		if x.val[v] != f(v) {
			x.flip(v)
		}
	}
}

// about compares the formula with want at the present assignment and at all
// that differ from it in one variable or two.
func (x *ev) about(want func(val []bool) bool, cov *eng.Cov) error {
	look := func() error {
		cov.Trans++
		w := want(x.val)
		if w {
			cov.Inc("sat")
		} else {
			cov.Inc("unsat")
		}
		if g := x.unsat == 0; g != w {
			return fmt.Errorf("an assignment is a model %v, should be %v: %v", g, w, trues(x.val))
		}
		return nil
	}
	if e := look(); e != nil {
		return e
	}
	for a := 1; a <= x.n; a++ {
		x.flip(a)
		if e := look(); e != nil {
			return e
		}
		for b := 1; b < a; b++ {
			x.flip(b)
			if e := look(); e != nil {
				return e
			}
			x.flip(b)
		}
		x.flip(a)
	}
	return nil
}

func trues(val []bool) (r []int) {
	for v, b := range val {
		if b {
			r = append(r, v)
		}
	}
	return
}

// matrix is the matrix of elements and parts with row and column sums, so that
// the meaning is found in short time after each change.
func matrix(n, k int, val []bool) (row, col []int) {
	row, col = make([]int, n), make([]int, k)
	for p := 0; p < k; p++ {
		for i := 0; i < n; i++ {
			if val[pv(i, p, n)] {
				row[i]++
				col[p]++
			}
		}
	}
	return
}

func sizes(t eng.Tier, yield func(a, b int) bool) bool {
	ns := []int{1, 2, 3, 5, 7, 8, 9, 11, 16, 17, 25, 32, 33, 64, 65, 127, 129}
	for _, a := range ns {
		for _, b := range ns {
			if a*b > 16 && a*b <= t.Pick(260, 400) && !yield(a, b) {
				return false
			}
		}
	}
	return true
}

func bigParts() []*eng.Part {
	placed := func(name string) func(t eng.Tier, yield func(c []int32) bool) {
		return func(t eng.Tier, yield func(c []int32) bool) {
			sizes(t, func(a, b int) bool {
				for s := 0; s < 6; s++ {
					if !yield([]int32{int32(a), int32(b), int32(s)}) {
						return false
					}
				}
				return true
			})
		}
	}
	// where element i of n is put in base s, of k parts
	put := func(i, n, k, s int) int {
		switch s {
		case 0:
			return i % k
		case 1:
			return (k - 1 - i%k)
		case 2:
			return (i + k/2) % k
		case 3:
			return (i * k) / n
		case 4:
			return 0
		}
		return k - 1
	}
	base := func(x *ev, n, k, s int) {
		x.set(func(int) bool { return false })
		for i := 0; i < n; i++ {
			x.flip(pv(i, put(i, n, k, s), n))
		}
	}
	ops := []*eng.Part{
		part("bigphp", "Php(P,H) with P*H from 17 to 260 (thorough 400), P and H of 17 sizes up to 129, 6 placements and everything that differs from one in one variable or two", placed("php"), func(c []int32, cov *eng.Cov) error {
			P, H := int(c[0]), int(c[1])
			var s sink
			gen.Php(&s, P, H)
			x, e := newEv(&s, P*H)
			if e != nil {
				return e
			}
			base(x, P, H, int(c[2]))
			return x.about(func(val []bool) bool {
				row, col := matrix(P, H, val)
				for _, r := range row {
					if r == 0 {
						return false
					}
				}
				for _, k := range col {
					if k > 1 {
						return false
					}
				}
				return true
			}, cov)
		}, "Php"),
		part("bigpartition", "Partition(n,k) with n*k from 17 to 260 (thorough 400), n and k of 17 sizes up to 129, 6 partitions and everything that differs from one in one variable or two", placed("partition"), func(c []int32, cov *eng.Cov) error {
			n, k := int(c[0]), int(c[1])
			var s sink
			gen.Partition(&s, n, k)
			x, e := newEv(&s, n*k)
			if e != nil {
				return e
			}
			base(x, n, k, int(c[2]))
			return x.about(func(val []bool) bool {
				row, _ := matrix(n, k, val)
				for _, r := range row {
					if r != 1 {
						return false
					}
				}
				return true
			}, cov)
		}, "Partition"),
		part("bigcycle", "BinCycle(n) for every n from 17 to 140, every assignment that is true exactly from i to j (quick: i next to a power of two or the end)", func(t eng.Tier, yield func(c []int32) bool) {
			for n := int32(17); n <= 140; n++ {
				if !yield([]int32{n, int32(t.Pick(0, 1))}) {
					return
				}
			}
		}, func(c []int32, cov *eng.Cov) error {
			n := int(c[0])
			var s sink
			gen.BinCycle(&s, n)
			x, e := newEv(&s, n)
			if e != nil {
				return e
			}
			if x.unsat != 0 {
				return fmt.Errorf("all false is no model")
			}
			for i := 1; i <= n; i++ {
				if c[1] == 0 && i&(i-1) != 0 && i&(i+1) != 0 && i < n-1 {
					continue
				}
				for j := i; j <= n; j++ {
					x.flip(j)
					cov.Trans++
					if g, w := x.unsat == 0, i == 1 && j == n; g != w {
						return fmt.Errorf("true exactly from %d to %d: is a model %v", i, j, g)
					}
				}
				x.set(func(int) bool { return false })
			}
			return nil
		}, "BinCycle"),
		part("bigtriples", "PyTriples(n,k), k of 2 and 3, n from 18 to 40 (thorough 70): for every triple and part the first partition (by backtracking) in which this is the only triple inside a part: no model; a partition without one: a model; and each with any one element moved", func(t eng.Tier, yield func(c []int32) bool) {
			for n := int32(18); n <= int32(t.Pick(40, 70)); n++ {
				for k := int32(2); k <= 3; k++ {
					for tr := int32(-1); tr < int32(len(triplesIn(int(n)))); tr++ {
						for p := int32(0); p < k; p++ {
							if !yield([]int32{n, k, tr, p}) {
								return
							}
							if tr < 0 {
								break
							}
						}
					}
				}
			}
		}, func(c []int32, cov *eng.Cov) error {
			n, k := int(c[0]), int(c[1])
			ts := triplesIn(n)
			var s sink
			gen.PyTriples(&s, n, k)
			x, e := newEv(&s, n*k)
			if e != nil {
				return e
			}
			at := make([]int, n+1)
			for i := range at {
				at[i] = -1
			}
			if c[2] >= 0 {
				for _, v := range ts[c[2]] {
					at[v] = int(c[3])
				}
			}
			mono := func() (r int) {
				for _, t := range ts {
					if at[t[0]] >= 0 && at[t[0]] == at[t[1]] && at[t[1]] == at[t[2]] {
						r++
					}
				}
				return
			}
			want := mono()
			steps := 0
			var fill func(v int) bool
			fill = func(v int) bool {
				if steps++; steps > 100000 {
					return false
				}
				for v <= n && at[v] >= 0 {
					v++
				}
				if v > n {
					return true
				}
				for p := 0; p < k; p++ {
					at[v] = (v + p) % k
					if mono() == want && fill(v+1) {
						return true
					}
				}
				at[v] = -1
				return false
			}
			if !fill(1) {
				cov.Inc("no such partition")
				return nil
			}
			for i := 1; i <= n; i++ {
				x.flip(pv(i-1, at[i], n))
			}
			look := func(w bool, what string) error {
				cov.Trans++
				if g := x.unsat == 0; g != w {
					return fmt.Errorf("%s: is a model %v, has %d triples inside a part: parts %v", what, g, mono(), at[1:])
				}
				return nil
			}
			if e := look(want == 0, "partition"); e != nil {
				return e
			}
			for i := 1; i <= n; i++ {
				was := at[i]
				x.flip(pv(i-1, was, n))
				if e := look(false, fmt.Sprintf("without element %d", i)); e != nil {
					return e
				}
				for p := 0; p < k; p++ {
					if p == was {
						continue
					}
					at[i] = p
					x.flip(pv(i-1, p, n))
					if e := look(mono() == 0, fmt.Sprintf("with element %d moved", i)); e != nil {
						return e
					}
					x.flip(pv(i-1, was, n))
					if e := look(false, fmt.Sprintf("with element %d twice", i)); e != nil {
						return e
					}
					x.flip(pv(i-1, was, n))
					x.flip(pv(i-1, p, n))
				}
				at[i] = was
				x.flip(pv(i-1, was, n))
			}
			return nil
		}, "PyTriples"),
		part("biggraph", "RandGraph(n,m) for n from 7 to 40, m of 0, 1, half and all possible edges (and one less and more), Rand3Cnf(n,2n), RandCube of cubers with n variables and maximum sizes 1, 2, n/2, n; the i-th random choice a*i+b, a and b from 0 to 6", func(t eng.Tier, yield func(c []int32) bool) {
			for n := int32(7); n <= 40; n += int32(t.Pick(3, 1)) {
				for a := int32(0); a < 7; a++ {
					for b := int32(0); b < 7; b++ {
						if !yield([]int32{n, a, b}) {
							return
						}
					}
				}
			}
		}, func(c []int32, cov *eng.Cov) (e error) {
			n := int(c[0])
			script := make([]int, 6000)
			for i := range script {
				script[i] = int(c[1])*i + int(c[2])
			}
			vrand.On = true
			vrand.Limit = 100000
			defer func() {
				vrand.On = false
				if r := recover(); r != nil {
					if _, ok := r.(vrand.Over); !ok {
						panic(r)
					}
					e = nil
					// other ways of choosing may need luck which a pattern has not
					cov.Inc("too many random choices")
				}
			}()
			all := n * (n - 1) / 2
			for _, m := range []int{0, 1, all / 2, all - 1, all, all + 1} {
				vrand.Reset(script)
				cov.Trans++
				if e := checkGraph(gen.RandGraph(n, m), n, m); e != nil {
					return fmt.Errorf("RandGraph(%d,%d): %v", n, m, e)
				}
			}
			vrand.Reset(script)
			var s sink
			gen.Rand3Cnf(&s, n, 2*n)
			if e := s.done(); e != nil {
				return e
			}
			if len(s.cs) != 2*n {
				return fmt.Errorf("Rand3Cnf(%d,%d): %d clauses", n, 2*n, len(s.cs))
			}
			for _, c := range s.cs {
				cov.Trans++
				if len(c) != 3 || abs(c[0]) == abs(c[1]) || abs(c[0]) == abs(c[2]) || abs(c[1]) == abs(c[2]) {
					return fmt.Errorf("Rand3Cnf(%d,%d): clause %v", n, 2*n, c)
				}
				for _, l := range c {
					if abs(l) < 1 || abs(l) > n {
						return fmt.Errorf("Rand3Cnf(%d,%d): clause %v", n, 2*n, c)
					}
				}
			}
			for _, k := range []int{1, 2, n / 2, n} {
				vrand.Reset(script)
				r := gen.NewRandCuber(k, z.Var(n))
				var dst []z.Lit
				for round := 0; round < 4; round++ {
					dst = r.RandCube(dst)
					cov.Trans++
					if len(dst) < 1 || len(dst) > k {
						return fmt.Errorf("cuber(%d,%d): cube %v", k, n, dst)
					}
					seen := map[z.Var]bool{}
					for _, m := range dst {
						if seen[m.Var()] || m.Var() < 1 || m.Var() > z.Var(n) {
							return fmt.Errorf("cuber(%d,%d): cube %v", k, n, dst)
						}
						seen[m.Var()] = true
					}
				}
			}
			return nil
		}, "n, a, b of "),
	}
	return ops
}
