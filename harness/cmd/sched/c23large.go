//go:build sched

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/vsched"
	"github.com/go-air/gini/z"

	"vh/eng"
)

// largePart has sessions about many variables, clauses, assumptions and
// questions at a time, so that buffers fill and words of models run over.
func largePart() *eng.Part {
	sizes := []int32{1, 7, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 300, 511, 700, 1025, 2100}
	return &eng.Part{
		Name: "large",
		Desc: fmt.Sprintf("sessions over n variables, n of %v: literals of a pattern fixed by units and a chain, n assumptions that fail together and not without one of them, selections of them, models by Model, Value and ModelFor (all variables upwards, downwards, every third), after Reset over again with the other pattern; through Add and Assume or Dimacs; bytes whole and in pieces of 1, 2 and 3; one schedule each", sizes),
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for _, n := range sizes {
				for chunk := int32(0); chunk < 4; chunk++ {
					if chunk > 0 && n > int32(t.Pick(300, 3000)) {
						continue
					}
					for how := int32(0); how < 4; how++ {
						if !yield([]int32{n, chunk, how}) {
							return
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			f := func() { large(int(c[0]), int(c[1]), c[2]&1 == 1, int(c[2]>>1)) }
			calm = true
			return exploreCrisp(fmt.Sprint(c), f, 10000000, 0, cov)
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("%d variables, pieces of %d, Dimacs %v, pattern %d", c[0], c[1], c[2]&1 == 1, c[2]>>1)
		},
		Hang: 3 * time.Minute,
	}
}

func large(n, chunk int, dimacs bool, pat int) {
	vsched.Fixed(true)
	s := startCrisp(1, chunk)
	c, e := crisp.Dial(crispAddr)
	failIf(e != nil, "Dial: %v", e)
	where := ""
	ok := func(e error, what string) { failIf(e != nil, "%s%s: %v", where, what, e) }
	for round := 0; round < 2; round++ {
		p := (pat + round) % 2
		where = fmt.Sprintf("round %d: ", round+1)
		// x(i) are fixed, a(i) make one of y(i) false, of which one must be true
		sign := func(i int) int {
			if p == 0 && i%3 == 0 || p == 1 && i%5 < 2 {
				return -1
			}
			return 1
		}
		x := func(i int) int { return sign(i) * i }
		a := func(i int) int { return sign(i+1) * (n + i) }
		y := func(i int) int { return sign(i+2) * (2*n + i) }
		var cs [][]int
		cs = append(cs, []int{x(1)})
		var all []int
		for i := 1; i <= n; i++ {
			if i > 1 {
				cs = append(cs, []int{x(i), -x(i - 1)})
			}
			cs = append(cs, []int{-a(i), -y(i)})
			all = append(all, y(i))
		}
		cs = append(cs, all)
		if dimacs {
			var b strings.Builder
			fmt.Fprintf(&b, "p cnf %d %d\n", 3*n, len(cs))
			for _, d := range cs {
				for _, l := range d {
					fmt.Fprintf(&b, "%d ", l)
				}
				b.WriteString("0\n")
			}
			ok(c.Dimacs(strings.NewReader(b.String())), "Dimacs")
		} else {
			for _, d := range cs {
				for _, l := range d {
					ok(c.Add(lit(l)), "Add")
				}
				ok(c.Add(0), "Add(0)")
			}
		}
		// with all a(i) but number k (0: with all)
		solve := func(k int) {
			var as []int
			for i := 1; i <= n; i++ {
				if i != k {
					as = append(as, a(i))
				}
			}
			if len(as) > 1 {
				h := len(as) / 3
				ok(c.Assume(lits(as[:h])...), "Assume")
				as = append(as[:0:0], as[h:]...)
			}
			ok(c.Assume(lits(as)...), "Assume")
			r, e := c.Solve()
			ok(e, "Solve")
			want := 1
			if k == 0 {
				want = -1
			}
			failIf(r != want, "%sSolve with the assumptions except number %d gives %d, should be %d", where, k, r, want)
		}
		for _, k := range []int{n, 0, 1, (n + 1) / 2, 0} {
			solve(k)
			w := fmt.Sprintf("%swithout assumption %d: ", where, k)
			if k == 0 {
				ms, e := c.Why(nil)
				ok(e, "Why")
				got := map[z.Lit]bool{}
				for _, m := range ms {
					got[m] = true
				}
				failIf(len(ms) != n || len(got) != n, "%s%d failed assumptions (%d different), all %d are needed", where, len(ms), len(got), n)
				for i := 1; i <= n; i++ {
					failIf(!got[lit(a(i))], "%sassumption %d is needed, but not among the failed", where, a(i))
				}
				var sel, want []z.Lit
				for i := n; i >= 1; i-- {
					if i%3 == 1 {
						sel = append(sel, lit(a(i)))
						want = append(want, lit(a(i)))
					} else {
						sel = append(sel, lit(-a(i)), lit(y(i)))
					}
				}
				ms, e = c.WhySelect(nil, sel)
				ok(e, "WhySelect")
				failIf(fmt.Sprint(ms) != fmt.Sprint(want), "%sWhySelect gives %d literals %v, should be %d", where, len(ms), ms, len(want))
				continue
			}
			want := func(l int) bool { // literals over x, a (but number k), y
				v := l
				if v < 0 {
					v = -v
				}
				t := 0
				switch {
				case v <= n:
					t = x(v)
				case v <= 2*n:
					t = a(v - n)
				case v == 2*n+k:
					t = y(k)
				default:
					t = -y(v - 2*n)
				}
				return t == l
			}
			free := func(v int) bool { return v == n+k } // must be false, as y(k) is true
			val := func(l int, g bool, what string) {
				v := l
				if v < 0 {
					v = -v
				}
				if free(v) {
					failIf(g == (l == a(k)), "%s%s: %d is %v", w, what, l, g)
					return
				}
				failIf(g != want(l), "%s%s: %d is %v", w, what, l, g)
			}
			m, e := c.Model(nil)
			ok(e, "Model")
			failIf(len(m) <= 3*n, "%sModel has %d values, there are %d variables", w, len(m)-1, 3*n)
			for v := 1; v <= 3*n; v++ {
				val(v, m[v], "Model")
			}
			for v := 1; v <= 3*n; v += 1 + v/7 {
				for _, l := range []int{v, -v} {
					g, e := c.Value(lit(l))
					ok(e, "Value")
					val(l, g, "Value")
				}
			}
			for k := 0; k < 3; k++ {
				var ls []int
				for i := 1; i <= 3*n; i++ {
					switch k {
					case 0:
						ls = append(ls, i)
					case 1:
						ls = append(ls, -(3*n + 1 - i))
					case 2:
						if i%3 == 0 {
							ls = append(ls, i, -i)
						}
					}
				}
				bs, e := c.ModelFor(nil, lits(ls))
				ok(e, "ModelFor")
				failIf(len(bs) < len(ls), "%sModelFor of %d gives %d values", w, len(ls), len(bs))
				for i, l := range ls {
					val(l, bs[i], "ModelFor")
				}
			}
		}
		ok(c.Reset(), "Reset")
	}
	ok(c.Quit(), "Quit")
	settle()
	c.Close()
	stopCrisp(s, 1)
}
