package sat

import "fmt"

// A Family is an exhaustively enumerable set of formulas.
type Family struct {
	Name string
	// Enum yields parameter vectors; deep selects the larger bound.
	Enum func(deep bool, yield func(p []int32) bool) bool
	// Build makes the formula of a parameter vector.
	Build func(p []int32) (nv int, cs [][]int)
}

// AllClauses lists all non-tautological duplicate-free clauses over n
// variables with length in [lo,hi].
func AllClauses(n, lo, hi int) [][]int {
	var out [][]int
	total := 1
	for i := 0; i < n; i++ {
		total *= 3
	}
	for x := 0; x < total; x++ {
		y := x
		var c []int
		for v := 1; v <= n; v++ {
			switch y % 3 {
			case 1:
				c = append(c, v)
			case 2:
				c = append(c, -v)
			}
			y /= 3
		}
		if len(c) >= lo && len(c) <= hi {
			out = append(out, c)
		}
	}
	return out
}

// subsets yields all index subsets of size k of [0,n) in lexicographic order.
func subsets(n, k int, yield func(ix []int32) bool) bool {
	ix := make([]int32, k)
	var rec func(i, from int) bool
	rec = func(i, from int) bool {
		if i == k {
			return yield(ix)
		}
		for x := from; x <= n-(k-i); x++ {
			ix[i] = int32(x)
			if !rec(i+1, x+1) {
				return false
			}
		}
		return true
	}
	return rec(0, 0)
}

// SubsetFamily is all clause sets of size at most kq (kt when deep) from a pool.
func SubsetFamily(name string, nv int, pool [][]int, kq, kt int) *Family {
	return &Family{
		Name: name,
		Enum: func(deep bool, yield func(p []int32) bool) bool {
			k := kq
			if deep {
				k = kt
			}
			for i := 0; i <= k; i++ {
				if !subsets(len(pool), i, yield) {
					return false
				}
			}
			return true
		},
		Build: func(p []int32) (int, [][]int) {
			cs := make([][]int, 0, len(p))
			for _, i := range p {
				cs = append(cs, pool[i])
			}
			return nv, cs
		},
	}
}

// flip negates the variables in mask.
func flip(cs [][]int, mask int32) [][]int {
	out := make([][]int, len(cs))
	for i, c := range cs {
		d := make([]int, len(c))
		for j, l := range c {
			v := l
			if v < 0 {
				v = -v
			}
			if mask>>uint(v-1)&1 == 1 {
				l = -l
			}
			d[j] = l
		}
		out[i] = d
	}
	return out
}

func reverse(cs [][]int) [][]int {
	out := make([][]int, len(cs))
	for i, c := range cs {
		d := make([]int, len(c))
		for j, l := range c {
			d[len(c)-1-j] = l
		}
		out[len(cs)-1-i] = d
	}
	return out
}

// MinusFamily is: a base formula minus every clause set of size at most r,
// under every polarity mask of a list and both clause orders.
// params: mask, reversed, removed...
func MinusFamily(name string, nv int, base [][]int, masks []int32, rq, rt int) *Family {
	return &Family{
		Name: name,
		Enum: func(deep bool, yield func(p []int32) bool) bool {
			r := rq
			if deep {
				r = rt
			}
			for i := 0; i <= r && i <= len(base); i++ {
				ok := subsets(len(base), i, func(ix []int32) bool {
					for _, m := range masks {
						for rev := int32(0); rev < 2; rev++ {
							p := append([]int32{m, rev}, ix...)
							if !yield(p) {
								return false
							}
						}
					}
					return true
				})
				if !ok {
					return false
				}
			}
			return true
		},
		Build: func(p []int32) (int, [][]int) {
			rm := map[int32]bool{}
			for _, x := range p[2:] {
				rm[x] = true
			}
			var cs [][]int
			for i, c := range base {
				if !rm[int32(i)] {
					cs = append(cs, c)
				}
			}
			cs = flip(cs, p[0])
			if p[1] == 1 {
				cs = reverse(cs)
			}
			return nv, cs
		},
	}
}

// Pigeons: p pigeons into h holes.
func Pigeons(p, h int) (int, [][]int) {
	v := func(i, j int) int { return i*h + j + 1 }
	var cs [][]int
	for i := 0; i < p; i++ {
		var c []int
		for j := 0; j < h; j++ {
			c = append(c, v(i, j))
		}
		cs = append(cs, c)
	}
	for j := 0; j < h; j++ {
		for i := 0; i < p; i++ {
			for k := i + 1; k < p; k++ {
				cs = append(cs, []int{-v(i, j), -v(k, j)})
			}
		}
	}
	return p * h, cs
}

// Xor appends the clauses of x_a + x_b + ... = rhs.
func Xor(cs [][]int, vs []int, rhs int) [][]int {
	n := len(vs)
	for m := 0; m < 1<<uint(n); m++ {
		// forbid assignments m with wrong parity
		par := 0
		for i := 0; i < n; i++ {
			par ^= m >> uint(i) & 1
		}
		if par == rhs {
			continue
		}
		var c []int
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 == 1 {
				c = append(c, -vs[i])
			} else {
				c = append(c, vs[i])
			}
		}
		cs = append(cs, c)
	}
	return cs
}

// XorFamily: every system of at most k parity equations over 3 of n variables.
func XorFamily(name string, n, kq, kt int) *Family {
	var eqs [][]int
	subsets(n, 3, func(ix []int32) bool {
		for r := 0; r < 2; r++ {
			eqs = append(eqs, []int{int(ix[0]) + 1, int(ix[1]) + 1, int(ix[2]) + 1, r})
		}
		return true
	})
	return &Family{
		Name: name,
		Enum: func(deep bool, yield func(p []int32) bool) bool {
			k := kq
			if deep {
				k = kt
			}
			for i := 1; i <= k; i++ {
				if !subsets(len(eqs), i, yield) {
					return false
				}
			}
			return true
		},
		Build: func(p []int32) (int, [][]int) {
			var cs [][]int
			for _, i := range p {
				e := eqs[i]
				cs = Xor(cs, e[:3], e[3])
			}
			return n, cs
		},
	}
}

// ColorFamily: k-colouring of every graph on n vertices.
func ColorFamily(name string, n, k int) *Family {
	var es [][2]int
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			es = append(es, [2]int{i, j})
		}
	}
	return &Family{
		Name: name,
		Enum: func(deep bool, yield func(p []int32) bool) bool {
			for m := int32(0); m < 1<<uint(len(es)); m++ {
				if !yield([]int32{m}) {
					return false
				}
			}
			return true
		},
		Build: func(p []int32) (int, [][]int) {
			v := func(i, c int) int { return i*k + c + 1 }
			var cs [][]int
			for i := 0; i < n; i++ {
				var c []int
				for x := 0; x < k; x++ {
					c = append(c, v(i, x))
				}
				cs = append(cs, c)
			}
			for e, ij := range es {
				if p[0]>>uint(e)&1 == 1 {
					for x := 0; x < k; x++ {
						cs = append(cs, []int{-v(ij[0], x), -v(ij[1], x)})
					}
				}
			}
			return n * k, cs
		},
	}
}

// CircFamily: "circulant" 3-CNF: layers of clauses
// (s0 x_i, s1 x_{i+a}, s2 x_{i+b}) for all i, with sign patterns depending on
// the parity of i; every choice of n, offsets and patterns in the bounds.
func CircFamily(name string, nsq, nst []int, layers int, pats []int32) *Family {
	offs := [][2]int{{1, 2}, {1, 3}, {2, 3}, {1, 4}}
	return &Family{
		Name: name,
		Enum: func(deep bool, yield func(p []int32) bool) bool {
			ns := nsq
			if deep {
				ns = nst
			}
			for _, n := range ns {
				p := make([]int32, 1+layers)
				p[0] = int32(n)
				N := len(offs) * len(pats)
				var rec func(i, from int) bool
				rec = func(i, from int) bool {
					if i == layers {
						return yield(p)
					}
					for x := from; x < N; x++ {
						p[1+i] = int32(x)
						if !rec(i+1, x+1) {
							return false
						}
					}
					return true
				}
				if !rec(0, 0) {
					return false
				}
			}
			return true
		},
		Build: func(p []int32) (int, [][]int) {
			n := int(p[0])
			var cs [][]int
			for _, x := range p[1:] {
				o := offs[int(x)%len(offs)]
				pat := pats[int(x)/len(offs)]
				for i := 0; i < n; i++ {
					s := pat >> uint(3*(i%2)) & 7
					c := []int{i + 1, (i+o[0])%n + 1, (i+o[1])%n + 1}
					for j := 0; j < 3; j++ {
						if s>>uint(j)&1 == 1 {
							c[j] = -c[j]
						}
					}
					cs = append(cs, c)
				}
			}
			return n, cs
		},
	}
}

// LongFamily: exactly the clauses of length n over n variables, minus every
// set of at most r (so the formula has exactly that many models), plus
// shorter resolvents making it propagate.
func LongFamily(name string, n, rq, rt int) *Family {
	var base [][]int
	for m := 0; m < 1<<uint(n); m++ {
		var c []int
		for v := 1; v <= n; v++ {
			if m>>uint(v-1)&1 == 1 {
				c = append(c, -v)
			} else {
				c = append(c, v)
			}
		}
		base = append(base, c)
	}
	return MinusFamily(name, n, base, []int32{0}, rq, rt)
}

// ChainFamily: implication chains with a conflict at the end that takes
// several resolution steps and has redundant literals, parameterised by
// which links exist.
func ChainFamily(name string, n int) *Family {
	// links x_i -> x_{i+1}, (x_i & x_{i+1}) -> x_{i+2}, end conflicts
	var links [][]int
	for i := 1; i < n; i++ {
		links = append(links, []int{-i, i + 1})
	}
	for i := 1; i+2 <= n; i++ {
		links = append(links, []int{-i, -(i + 1), i + 2})
	}
	links = append(links, []int{-n, -1}, []int{-n, -(n - 1), -2}, []int{1, 2}, []int{1, -2, n}, []int{1, 3}, []int{-3, 1, 2})
	return &Family{
		Name: name,
		Enum: func(deep bool, yield func(p []int32) bool) bool {
			for m := int32(0); m < 1<<uint(len(links)); m++ {
				if !yield([]int32{m}) {
					return false
				}
			}
			return true
		},
		Build: func(p []int32) (int, [][]int) {
			var cs [][]int
			for i, l := range links {
				if p[0]>>uint(i)&1 == 1 {
					cs = append(cs, l)
				}
			}
			return n, cs
		},
	}
}

// Families used by several checks.
func Families() []*Family {
	p32v, p32 := Pigeons(3, 2)
	p43v, p43 := Pigeons(4, 3)
	p54v, p54 := Pigeons(5, 3)
	masks := func(n int) []int32 {
		ms := []int32{0, int32(1<<uint(n)) - 1}
		for i := 0; i < n; i++ {
			ms = append(ms, 1<<uint(i), 0x55555555&(1<<uint(n)-1)^1<<uint(i))
		}
		return ms
	}
	all := func(n int) []int32 {
		var ms []int32
		for i := int32(0); i < 1<<uint(n); i++ {
			ms = append(ms, i)
		}
		return ms
	}
	return []*Family{
		SubsetFamily("cls3", 3, AllClauses(3, 0, 3), 5, 7),
		SubsetFamily("cls4", 4, AllClauses(4, 1, 4), 3, 4),
		SubsetFamily("two4", 4, AllClauses(4, 2, 2), 6, 8),
		SubsetFamily("three4", 4, AllClauses(4, 3, 3), 5, 7),
		LongFamily("long5", 5, 3, 4),
		LongFamily("long7", 7, 1, 2),
		MinusFamily("php32", p32v, p32, all(6), 9, 9),
		MinusFamily("php43", p43v, p43, masks(p43v), 2, 3),
		MinusFamily("php53", p54v, p54, masks(p54v), 1, 2),
		XorFamily("xor5", 5, 4, 5),
		XorFamily("xor6", 6, 3, 5),
		ColorFamily("col4x3", 4, 3),
		ColorFamily("col5x3", 5, 3),
		ColorFamily("col5x2", 5, 2),
		CircFamily("circ4", []int{7, 8, 9, 10}, []int{7, 8, 9, 10, 11, 12}, 4, []int32{0, 7, 011, 016, 025, 043, 070, 061}),
		CircFamily("circ5", []int{11}, []int{9, 11, 13, 14}, 5, []int32{0, 7, 016, 025, 043}),
		ChainFamily("chain6", 6),
	}
}

// FamByName finds a family.
func FamByName(fs []*Family, n string) *Family {
	for _, f := range fs {
		if f.Name == n {
			return f
		}
	}
	panic("no family " + n)
}

// Count counts a family (for tests of the harness).
func (f *Family) Count(deep bool) (n int) {
	f.Enum(deep, func([]int32) bool { n++; return true })
	return
}

func (f *Family) ShowP(p []int32) string {
	nv, cs := f.Build(p)
	return fmt.Sprintf("%s%v: %d vars %v", f.Name, p, nv, cs)
}
