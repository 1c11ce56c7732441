//go:build vt

package main

import (
	"fmt"
	"time"

	"github.com/go-air/gini/vtime"

	"vh/eng"
	"vh/sat"
)

// The virtual clock advances one step per look, so Try(k steps) is
// interrupted at the k-th look at the clock, which the build makes happen at
// every step of the search.  Every k is tried until the call answers.

// tryAt runs Try with the deadline at look k; reports whether it was interrupted.
func tryAt(w *sat.World, k int64) (bool, error) {
	vtime.Virtual = true
	vtime.Step = time.Microsecond
	vtime.Reset()
	w.TryDur = time.Duration(k) * time.Microsecond
	w.TryMay0 = func() bool { return vtime.Looks >= k }
	e := w.Exec(op(sat.OpTry))
	vtime.Virtual = false
	w.TryMay0 = nil
	w.TryDur = 0
	if e != nil {
		return false, fmt.Errorf("deadline at look %d: %v", k, e)
	}
	r, ok := w.LastRes()
	return ok && r == 0, nil
}

func c10() *eng.Prop {
	conts := [][]int32{
		{op(sat.OpSolve)},
		{sat.MkLit(sat.OpAssume, 1), op(sat.OpSolve), op(sat.OpWhy), op(sat.OpSolve)},
		{op(sat.OpTest), op(sat.OpReasons), sat.MkLit(sat.OpAssume, -2), op(sat.OpTest), op(sat.OpReasons), op(sat.OpUntest), op(sat.OpUntest), op(sat.OpSolve)},
		{sat.Mk(sat.OpAdd, 0), op(sat.OpSolve), op(sat.OpWrite)},
		{op(sat.OpCopy), op(sat.OpSolve), op(sat.OpSwap), sat.MkLit(sat.OpAssume, -1), op(sat.OpSolve), op(sat.OpWhy)},
		{op(sat.OpTry), op(sat.OpTest), op(sat.OpReasons), op(sat.OpUntest)},
		{op(sat.OpTry0), op(sat.OpSolve)},
		{op(sat.OpActLit), op(sat.OpSolve), op(sat.OpGoSolve)},
	}
	pres := [][]int32{
		nil,
		{sat.MkLit(sat.OpAssume, -1), sat.MkLit(sat.OpAssume, 2)},
		{sat.MkLit(sat.OpAssume, 1), op(sat.OpTest), sat.MkLit(sat.OpAssume, -3)},
	}
	runAll := func(kcap int64) func(nv int, cs [][]int, cov *eng.Cov) error {
		return func(nv int, cs [][]int, cov *eng.Cov) error {
			if len(cs) == 0 {
				return nil
			}
			maxK := int64(0)
			for pi, pre := range pres {
				// how often a Try that has all the time looks at the clock
				w0 := sat.NewWorld(nv, cs, small(), nil)
				s0 := script{w0}
				if e := addAll(w0, cs); e != nil {
					return e
				}
				if e := s0.do(pre...); e != nil {
					return e
				}
				if hit, e := tryAt(w0, 1<<40); e != nil || hit {
					return fmt.Errorf("assumptions/tests #%d, Try with ample time: gave up %v, %v", pi, hit, e)
				}
				looks := vtime.Looks
				for ci := 0; ci < len(conts); ci++ {
					for k := int64(1); k <= kcap; k++ {
						w := sat.NewWorld(nv, cs, small(), nil)
						s := script{w}
						if e := addAll(w, cs); e != nil {
							return e
						}
						if e := s.do(pre...); e != nil {
							return e
						}
						hit, e := tryAt(w, k)
						if e == nil {
							e = s.do(conts[ci]...)
						}
						for e == nil && w.Legal(op(sat.OpUntest)) {
							e = s.do(op(sat.OpUntest))
						}
						if e == nil {
							e = s.do(op(sat.OpSolve))
						}
						if e != nil {
							return fmt.Errorf("assumptions/tests #%d, Try interrupted at look %d, continuation #%d: %v", pi, k, ci, e)
						}
						cov.Trans += w.Trans
						cov.Traces++
						if !hit && k <= looks/2 {
							return fmt.Errorf("assumptions/tests #%d: Try whose time is up after %d of %d steps searches on", pi, k, looks)
						}
						if !hit {
							break
						}
						cov.Inc("interrupted")
						cov.Nontriv++
						if k > maxK {
							maxK = k
						}
						if k == kcap {
							cov.Inc("look_cap_reached")
						}
					}
				}
			}
			// interrupt at every look in turn on the same solver: progress is kept
			w := sat.NewWorld(nv, cs, small(), nil)
			s := script{w}
			if e := addAll(w, cs); e != nil {
				return e
			}
			for k := int64(1); k <= maxK+1 && k <= 40; k++ {
				for _, a := range []int{1, -2} {
					if e := s.do(sat.MkLit(sat.OpAssume, a)); e != nil {
						return e
					}
					if _, e := tryAt(w, k); e != nil {
						return fmt.Errorf("repeated: %v", e)
					}
					if e := s.do(op(sat.OpTest), op(sat.OpReasons), op(sat.OpUntest)); e != nil {
						return fmt.Errorf("repeated, test after deadline %d: %v", k, e)
					}
				}
			}
			e := s.do(op(sat.OpSolve), op(sat.OpWhy), op(sat.OpWrite))
			cov.Trans += w.Trans
			return e
		}
	}
	// random-access histories with an interruption anywhere
	tab5, pre5 := bases([][]int{{-2}, {1, 3}, {-4, -5}}, bases5)
	return &eng.Prop{ID: "C10", Level: "fault_enumeration",
		Notes: []string{"built with the clock replaced by one that advances one step per look and with the check interval set to every step of the search, so a deadline of k steps strikes at the k-th check", "Try(0) and GoSolve().Wait() are among the continuations; stops of background solves are C09's"},
		Parts: []*eng.Part{
			famPart("fams", "every formula, every deadline position k until the call answers, 3 kinds of assumptions/tests before and 8 continuations after", pickFams("php32", "xor5", "long5"), runAll(200), pickFams("two4", "circ4", "chain6")...),
			famPart("hard", "same for formulas with long searches (up to 25 looks each)", pickFams("php43", "xor6", "col4x3"), runAll(25), pickFams("php53", "circ5")...),
			histSpec{name: "hist", nv: 5, tab: tab5, prefixes: pre5,
				alpha: cat(adds(tab5[:3]), asms(1, -3), solveOp, testOps, []int32{sat.Mk(sat.OpTry, 1), sat.Mk(sat.OpTry, 2), op(sat.OpTry0)}), dq: 5, dt: 6,
				mk: func(nv int, tab [][]int) *sat.World {
					w := mkWorld(nv, tab)
					w.TryHook = func(k int) func() {
						vtime.Virtual = true
						vtime.Step = time.Microsecond
						vtime.Reset()
						w.TryDur = time.Duration(k) * time.Microsecond
						w.TryMay0 = func() bool { return vtime.Looks >= int64(k) }
						return func() { vtime.Virtual = false; w.TryDur = 0; w.TryMay0 = nil }
					}
					return w
				}}.part(),
		}}
}
