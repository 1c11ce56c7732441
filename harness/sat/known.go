package sat

import "fmt"

// formulas whose answer is known from mathematics, of sizes at which tables,
// heaps and the learnt clauses grow, are cleaned and start over.

type KnownF struct {
	Name string
	NV   int
	CS   [][]int
	Sat  bool
	Hard int // fewer presentations
}

func colours(n, k int, edges [][2]int) (nv int, cs [][]int) {
	v := func(i, c int) int { return i*k + c + 1 }
	for i := 0; i < n; i++ {
		var c []int
		for j := 0; j < k; j++ {
			c = append(c, v(i, j))
		}
		cs = append(cs, c)
	}
	for _, e := range edges {
		for j := 0; j < k; j++ {
			cs = append(cs, []int{-v(e[0], j), -v(e[1], j)})
		}
	}
	return n * k, cs
}

func parity(ls []int, odd bool) (cs [][]int) {
	for m := 0; m < 1<<uint(len(ls)); m++ {
		neg := 0
		c := make([]int, len(ls))
		for i, l := range ls {
			c[i] = l
			if m>>uint(i)&1 == 1 {
				c[i] = -l
				neg++
			}
		}
		// the clause excludes the assignment with exactly neg of them true
		if (neg%2 == 1) != odd {
			cs = append(cs, c)
		}
	}
	return
}

// progressions: 2-colourings of 1..n without a progression of a in the first
// colour or b in the second.
func progressions(n, a, b int) (cs [][]int) {
	for s, l := range map[int]int{1: a, -1: b} {
		for d := 1; (l-1)*d < n; d++ {
			for i := 1; i+(l-1)*d <= n; i++ {
				var c []int
				for j := 0; j < l; j++ {
					c = append(c, -s*(i+j*d))
				}
				cs = append(cs, c)
			}
		}
	}
	// the range over the map has no order of its own
	var r [][]int
	for _, s := range []int{-1, 1} {
		for _, c := range cs {
			if c[0]*s > 0 {
				r = append(r, c)
			}
		}
	}
	return r
}

func schur(n, k int) (int, [][]int) {
	v := func(i, c int) int { return (i-1)*k + c + 1 }
	var cs [][]int
	for i := 1; i <= n; i++ {
		var c []int
		for j := 0; j < k; j++ {
			c = append(c, v(i, j))
		}
		cs = append(cs, c)
	}
	for a := 1; a <= n; a++ {
		for b := a; a+b <= n; b++ {
			for j := 0; j < k; j++ {
				if a == b {
					cs = append(cs, []int{-v(a, j), -v(2*a, j)})
				} else {
					cs = append(cs, []int{-v(a, j), -v(b, j), -v(a+b, j)})
				}
			}
		}
	}
	return n * k, cs
}

func ramsey(n, a, b int) (int, [][]int) {
	v := func(i, j int) int { return j*(j-1)/2 + i + 1 } // i < j
	var cs [][]int
	var cliques func(at, k int, in []int, s int)
	cliques = func(at, k int, in []int, s int) {
		if k == 0 {
			var c []int
			for y := range in {
				for x := 0; x < y; x++ {
					c = append(c, s*v(in[x], in[y]))
				}
			}
			cs = append(cs, c)
			return
		}
		for i := at; i < n; i++ {
			cliques(i+1, k-1, append(append([]int{}, in...), i), s)
		}
	}
	cliques(0, a, nil, -1)
	cliques(0, b, nil, 1)
	return n * (n - 1) / 2, cs
}

func queens(n int) (int, [][]int) {
	v := func(r, c int) int { return r*n + c + 1 }
	var cs [][]int
	for r := 0; r < n; r++ {
		var c []int
		for k := 0; k < n; k++ {
			c = append(c, v(r, k))
		}
		cs = append(cs, c)
	}
	for a := 0; a < n*n; a++ {
		for b := 0; b < a; b++ {
			dr, dc := a/n-b/n, a%n-b%n
			if dr == 0 || dc == 0 || dr == dc || dr == -dc {
				cs = append(cs, []int{-(a + 1), -(b + 1)})
			}
		}
	}
	return n * n, cs
}

// dominoes: the n by n board without the squares x and y covered by dominoes.
func dominoes(n, x, y int) (int, [][]int) {
	at := make([][]int, n*n)
	nv := 0
	for s := 0; s < n*n; s++ {
		for _, o := range []int{s + 1, s + n} {
			if o == s+1 && o%n == 0 || o >= n*n || s == x || s == y || o == x || o == y {
				continue
			}
			nv++
			at[s] = append(at[s], nv)
			at[o] = append(at[o], nv)
		}
	}
	var cs [][]int
	for s, vs := range at {
		if s == x || s == y {
			continue
		}
		cs = append(cs, vs)
		for i := range vs {
			for j := 0; j < i; j++ {
				cs = append(cs, []int{-vs[i], -vs[j]})
			}
		}
	}
	return nv, cs
}

func KnownFormulas(deep bool) (fs []KnownF) {
	add := func(hard int, sat bool, nv int, cs [][]int, f string, as ...interface{}) {
		fs = append(fs, KnownF{fmt.Sprintf(f, as...), nv, cs, sat, hard})
	}
	lim := 1
	if deep {
		lim = 2
	}
	hard := func(h int) bool { return h <= lim }
	for h := 4; h <= 8; h++ {
		for p := h - 1; p <= h+1; p++ {
			k := 0
			if p > h && h > 5 {
				k = h - 5
			}
			if !hard(k) {
				continue
			}
			var cs [][]int
			for i := 0; i < p; i++ {
				var c []int
				for j := 0; j < h; j++ {
					c = append(c, i*h+j+1)
				}
				cs = append(cs, c)
			}
			for j := 0; j < h; j++ {
				for a := 0; a < p; a++ {
					for b := 0; b < a; b++ {
						cs = append(cs, []int{-(a*h + j + 1), -(b*h + j + 1)})
					}
				}
			}
			add(k, p <= h, p*h, cs, "%d pigeons in %d holes", p, h)
		}
	}
	for _, n := range []int{33, 65, 129, 300, 1025, 3000} {
		for s := 0; s < 2; s++ {
			var cs [][]int
			for i := 1; i < n; i++ {
				cs = append(cs, []int{-i, i + 1})
			}
			cs = append(cs, []int{1, 2})
			if s == 0 {
				cs = append(cs, []int{-n, -(n - 1)})
			}
			add(0, s == 1, n, cs, "implication chain of %d, contradicted %v", n, s == 0)
			cs = nil
			var long []int
			for i := 1; i <= n; i++ {
				long = append(long, i)
				if i > s {
					cs = append(cs, []int{-i})
				}
			}
			cs = append(cs, long)
			add(0, s == 1, n, cs, "clause of %d literals, %d left", n, s)
		}
	}
	for _, n := range []int{20, 33, 65, 130, 300} {
		for s := 0; s < 2; s++ {
			var cs [][]int
			for i := 1; i <= n; i++ {
				j := i%n + 1
				cs = append(cs, parity([]int{i, j}, i == n && s == 0)...)
			}
			add(0, s == 1, n, cs, "parity cycle of %d, odd %v", n, s == 0)
			cs = nil
			// windows of 3: period 3, so the ends are tied
			for i := 1; i+2 <= n; i++ {
				cs = append(cs, parity([]int{i, i + 1, i + 2}, true)...)
			}
			cs = append(cs, parity([]int{1 + (n-1)%3, n}, s == 0)...)
			add(0, s == 1, n, cs, "parity windows of %d, contradicted %v", n, s == 0)
		}
	}
	for _, n := range []int{9, 10, 17, 24, 33, 64} {
		var e1, e2, wh [][2]int
		for i := 0; i < n; i++ {
			e1 = append(e1, [2]int{i, (i + 1) % n})
			e2 = append(e2, [2]int{i, (i + 1) % n}, [2]int{i, (i + 2) % n})
			wh = append(wh, [2]int{i, (i + 1) % n}, [2]int{i, n})
		}
		nv, cs := colours(n, 2, e1)
		add(0, n%2 == 0, nv, cs, "2 colours on a cycle of %d", n)
		nv, cs = colours(n, 3, e2)
		add(0, n%3 == 0, nv, cs, "3 colours on the square of a cycle of %d", n)
		nv, cs = colours(n+1, 3, wh)
		add(0, n%2 == 0, nv, cs, "3 colours on a wheel of %d", n)
	}
	for _, w := range [][3]int{{3, 3, 9}, {3, 4, 18}, {3, 5, 22}, {3, 6, 32}, {4, 4, 35}} {
		add(0, true, w[2]-1, progressions(w[2]-1, w[0], w[1]), "2 colours of 1..%d without progressions of %d and %d", w[2]-1, w[0], w[1])
		k := 0
		if w[2] > 30 {
			k = 1
		}
		add(k, false, w[2], progressions(w[2], w[0], w[1]), "2 colours of 1..%d without progressions of %d and %d", w[2], w[0], w[1])
	}
	for _, s := range [][3]int{{4, 2, 1}, {5, 2, 0}, {13, 3, 1}, {14, 3, 0}, {30, 4, 1}, {40, 4, 1}, {44, 4, 1}} {
		nv, cs := schur(s[0], s[1])
		k := 0
		if s[0] == 40 {
			k = 1
		}
		if s[0] == 44 {
			k = 2
		}
		if !hard(k) {
			continue
		}
		add(k, s[2] == 1, nv, cs, "%d sum-free sets covering 1..%d", s[1], s[0])
	}
	for _, r := range [][3]int{{5, 3, 3}, {6, 3, 3}, {8, 3, 4}, {9, 3, 4}, {13, 3, 5}, {16, 4, 4}} {
		nv, cs := ramsey(r[0], r[1], r[2])
		k := 0
		if r[0] > 8 {
			k = 1
		}
		add(k, r[0] != 6 && r[0] != 9, nv, cs, "graphs on %d nodes without cliques of %d and independent sets of %d", r[0], r[1], r[2])
	}
	for n := 2; n <= 12; n++ {
		nv, cs := queens(n)
		add(0, n > 3, nv, cs, "%d queens", n)
	}
	for _, n := range []int{4, 6, 8} {
		k := 0
		if n == 8 {
			k = 2
		}
		if hard(k) {
			nv, cs := dominoes(n, 0, n*n-1)
			add(k, false, nv, cs, "dominoes on a board of %d without two equal corners", n)
		}
		nv, cs := dominoes(n, 0, n-1)
		add(0, true, nv, cs, "dominoes on a board of %d without two different corners", n)
	}
	return
}

// PresentKnown gives the clauses in another order, under other names and with other signs.
func PresentKnown(f *KnownF, how int) (cs [][]int, ren func(l int) int) {
	names, signs, order := how%3, how/3%3, how/9%3
	ren = func(l int) int {
		v := abs(l)
		neg := l < 0
		if signs == 1 || signs == 2 && v%3 != 0 {
			neg = !neg
		}
		switch names {
		case 1:
			v = f.NV + 1 - v
		case 2:
			v = v*5 + v%2
		}
		if neg {
			return -v
		}
		return v
	}
	for _, c := range f.CS {
		d := make([]int, len(c))
		for i, l := range c {
			d[i] = ren(l)
		}
		if order == 1 {
			for i, j := 0, len(d)-1; i < j; i, j = i+1, j-1 {
				d[i], d[j] = d[j], d[i]
			}
		}
		cs = append(cs, d)
	}
	n := len(cs)
	switch order {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			cs[i], cs[j] = cs[j], cs[i]
		}
	case 2:
		var r [][]int
		for s := 0; s < 7; s++ {
			for i := s; i < n; i += 7 {
				r = append(r, cs[i])
			}
		}
		cs = r
	}
	return
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}
