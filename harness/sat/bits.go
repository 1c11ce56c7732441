// Package sat has the boring reference models for the solver checks: the set
// of satisfying assignments of a formula as an explicit bit set.
package sat

import "math/bits"

// BS is a set of assignments over n variables; assignment a (bit i-1 = value
// of variable i) is in the set iff bit a is set.
type BS struct {
	N int
	W []uint64
}

var varMask = [6]uint64{
	0xAAAAAAAAAAAAAAAA, 0xCCCCCCCCCCCCCCCC, 0xF0F0F0F0F0F0F0F0,
	0xFF00FF00FF00FF00, 0xFFFF0000FFFF0000, 0xFFFFFFFF00000000}

func words(n int) int {
	if n <= 6 {
		return 1
	}
	return 1 << uint(n-6)
}

// Full is the set of all assignments over n variables.
func Full(n int) BS {
	b := BS{n, make([]uint64, words(n))}
	for i := range b.W {
		b.W[i] = ^uint64(0)
	}
	if n < 6 {
		b.W[0] = (uint64(1) << (uint(1) << uint(n))) - 1
	}
	return b
}

func (b BS) Clone() BS { return BS{b.N, append([]uint64{}, b.W...)} }

func litWord(l, w int) uint64 {
	v := l
	if v < 0 {
		v = -v
	}
	v--
	var x uint64
	if v < 6 {
		x = varMask[v]
	} else if w>>uint(v-6)&1 == 1 {
		x = ^uint64(0)
	}
	if l < 0 {
		x = ^x
	}
	return x
}

// AndLit restricts b to assignments making l true.
func (b BS) AndLit(l int) {
	for i := range b.W {
		b.W[i] &= litWord(l, i)
	}
}

// AndClause restricts b to assignments satisfying the clause.
func (b BS) AndClause(c []int) {
	for i := range b.W {
		var x uint64
		for _, l := range c {
			x |= litWord(l, i)
		}
		b.W[i] &= x
	}
}

func (b BS) Empty() bool {
	for _, w := range b.W {
		if w != 0 {
			return false
		}
	}
	return true
}

// Implies tells whether every assignment in b makes l true.
func (b BS) Implies(l int) bool {
	for i, w := range b.W {
		if w&^litWord(l, i) != 0 {
			return false
		}
	}
	return true
}

// Has tells whether assignment a is in b.
func (b BS) Has(a uint) bool { return b.W[a>>6]>>(a&63)&1 == 1 }

func (b BS) Count() int {
	n := 0
	for _, w := range b.W {
		n += bits.OnesCount64(w)
	}
	return n
}

// With returns b restricted by literals.
func (b BS) With(ls ...int) BS {
	c := b.Clone()
	for _, l := range ls {
		c.AndLit(l)
	}
	return c
}

// WithClauses returns b restricted by clauses.
func (b BS) WithClauses(cs [][]int) BS {
	c := b.Clone()
	for _, l := range cs {
		c.AndClause(l)
	}
	return c
}

func Equal(a, b BS) bool {
	for i := range a.W {
		if a.W[i] != b.W[i] {
			return false
		}
	}
	return true
}

// BCP computes the unit-propagation closure of clauses plus assumptions.
// conflict is true when propagation derives a contradiction.
func BCP(n int, cs [][]int, as []int) (val []int8, conflict bool) {
	val = make([]int8, n+1)
	set := func(l int) bool {
		v, s := l, int8(1)
		if l < 0 {
			v, s = -l, -1
		}
		if val[v] == -s {
			return false
		}
		val[v] = s
		return true
	}
	for _, a := range as {
		if !set(a) {
			return val, true
		}
	}
	for ch := true; ch; {
		ch = false
	next:
		for _, c := range cs {
			u := 0
			for _, l := range c {
				v, s := l, int8(1)
				if l < 0 {
					v, s = -l, -1
				}
				if val[v] == s {
					continue next
				}
				if val[v] == 0 {
					if u != 0 && u != l {
						u = 1 << 30
						break
					}
					u = l
				}
			}
			if u == 0 {
				return val, true
			}
			if u != 1<<30 {
				set(u)
				ch = true
			}
		}
	}
	return val, false
}
