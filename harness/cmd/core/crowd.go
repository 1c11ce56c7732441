package main

import (
	"fmt"

	"github.com/go-air/gini"
	"github.com/go-air/gini/z"

	"vh/eng"
)

// crowd: many activated clauses at once.  Clause i of round r is x or y over
// variables of its own, so what each one does can be told apart.
func crowd() *eng.Part {
	rounds := 3
	return &eng.Part{
		Name: "crowd",
		Desc: "3 rounds of activating k clauses (each its own literal, or 1, 2 or 5 literals shared by all), k of 3, 9, 33, 64, 65, 130, 300, and deactivating every second, the first half, the last half, all but the last, or all; solved in between or not, copied or not; after each round every clause that was ever activated is asked for with its literal, with all literals and without it",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for _, k := range []int32{3, 9, 33, 64, 65, 130, 300} {
				for share := int32(0); share < 4; share++ {
					for pat := int32(0); pat < 5; pat++ {
						for o := int32(0); o < 8; o++ {
							if !yield([]int32{k, share, pat, o}) {
								return
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			k, share, pat := int(c[0]), []int{0, 1, 2, 5}[c[1]], int(c[2])
			solve, cp, small := c[3]&1 == 1, c[3]&2 == 2, c[3]&4 == 4
			g := gini.New()
			if !small {
				g = gini.NewVc(8*k, 8*k)
			}
			type cl struct {
				x, y, act z.Lit
				on        bool
			}
			var cls []*cl
			// solved says whether the clauses leave the answer to be 1 under ms
			ask := func(g *gini.Gini, want int, what string, ms ...z.Lit) error {
				g.Assume(ms...)
				cov.Trans++
				if r := g.Solve(); r != want {
					return fmt.Errorf("%s: Solve gives %d, should be %d", what, r, want)
				}
				return nil
			}
			check := func(g *gini.Gini) error {
				var live []z.Lit
				had := map[z.Lit]bool{}
				for _, q := range cls {
					if q.on && !had[q.act] {
						had[q.act] = true
						live = append(live, q.act)
					}
				}
				for i, q := range cls {
					w := fmt.Sprintf("clause %d, activated %v", i, q.on)
					if e := ask(g, 1, w+", without its literal", q.x.Not(), q.y.Not()); e != nil {
						return e
					}
					if q.on {
						if e := ask(g, -1, w+", with its literal", q.x.Not(), q.y.Not(), q.act); e != nil {
							return e
						}
						if e := ask(g, 1, w+", with its literal and one of its own true", q.x.Not(), q.act); e != nil {
							return e
						}
					}
					want := 1
					if q.on {
						want = -1
					}
					if i%4 == 0 || i == len(cls)-1 {
						if e := ask(g, want, w+", with all literals", append([]z.Lit{q.x.Not(), q.y.Not()}, live...)...); e != nil {
							return e
						}
					}
				}
				return nil
			}
			for r := 0; r < rounds; r++ {
				var own []z.Lit
				for i := 0; i < share; i++ {
					own = append(own, g.ActivationLit())
				}
				var now []*cl
				for i := 0; i < k; i++ {
					q := &cl{x: g.Lit(), y: g.Lit(), on: true}
					if (i+r)%3 == 1 {
						q.x = q.x.Not()
					}
					g.Add(q.x)
					g.Add(q.y)
					if share == 0 {
						q.act = g.Activate()
					} else {
						q.act = own[i%share]
						g.ActivateWith(q.act)
					}
					now = append(now, q)
				}
				cls = append(cls, now...)
				if solve {
					if e := ask(g, 1, "all at once", now[0].act, now[k-1].act); e != nil {
						return e
					}
				}
				var offs []z.Lit
				seen := map[z.Lit]bool{}
				n := 0
				for _, q := range now {
					if !seen[q.act] {
						seen[q.act] = true
						n++
					}
				}
				i := 0
				for _, q := range now {
					if !seen[q.act] {
						continue
					}
					seen[q.act] = false
					if []bool{i%2 == 1, i < n/2, i >= n/2, i < n-1, true}[pat] {
						offs = append(offs, q.act)
					}
					i++
				}
				for j := range offs {
					m := offs[j]
					if r == 1 {
						m = offs[len(offs)-1-j]
					}
					g.Deactivate(m)
					for _, q := range cls {
						if q.on && q.act == m {
							q.on = false
						}
					}
				}
				if cp {
					o := g
					g = g.Copy()
					if e := check(o); e != nil {
						return fmt.Errorf("round %d, original: %v", r, e)
					}
				}
				if e := check(g); e != nil {
					return fmt.Errorf("round %d: %v", r, e)
				}
			}
			h := eng.NewH()
			for _, x := range c {
				h.I(int(x))
			}
			eng.State(uint64(h))
			cov.Nontriv++
			cov.Traces++
			return nil
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("%d clauses, sharing %d, pattern %d, options %03b", c[0], []int{0, 1, 2, 5}[c[1]], c[2], c[3])
		},
	}
}
