//go:build sched

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/vsched"
	"github.com/go-air/gini/z"

	"vh/eng"
)

// controller steps
const (
	cTest = iota
	cPause
	cPauseCopy
	cStop
	cWait
	cTry
	cTry0
)

var cNames = []string{"Test", "Pause,Unpause", "Pause,Copy,Unpause", "Stop", "Wait", "Try", "Try(0)"}

func scriptName(s []int32) string {
	var n []string
	for _, x := range s {
		n = append(n, cNames[x])
	}
	return strings.Join(n, " ")
}

// control runs a controller script on a background solve and returns the result.
func control(f *form, g *gini.Gini, script []int32, as []int, want int) (r int, stopped bool) {
	s := g.GoSolve()
	check := func(op string, r int, may0 bool) {
		failIf(r != want && !(r == 0 && may0), "%s returned %d, the right answer is %d", op, r, want)
	}
	for _, c := range script {
		switch c {
		case cTest:
			r, done := s.Test()
			if !done {
				failIf(r != 0, "Test returned %d without being done", r)
				continue
			}
			check("Test", r, false)
			return r, false
		case cPause, cPauseCopy:
			r, ok := s.Pause()
			if !ok {
				check("Pause", r, false)
				return r, false
			}
			failIf(r != 0, "successful Pause returned %d", r)
			inc("pauses")
			n := vsched.Quiesce()
			failIf(n > 3, "a paused solve went on (%d steps)", n)
			if c == cPauseCopy {
				d := g.Copy()
				n = vsched.Quiesce()
				failIf(n > 0, "a paused solve went on during Copy (%d steps)", n)
				vsched.Atomic(func() {
					if r := d.Solve(); r != want {
						vsched.Fail("copy made during a pause answers %d, the right answer is %d", r, want)
					} else {
						f.checkAnswer("copy made during a pause", d, r, as)
					}
					if r, w := d.Solve(), f.truth(); r != w {
						vsched.Fail("second solve of a copy made during a pause answers %d, the right answer is %d", r, w)
					} else {
						f.checkAnswer("second solve of a copy made during a pause", d, r, nil)
					}
				})
			}
			s.Unpause()
		case cStop:
			r := s.Stop()
			check("Stop", r, true)
			if r == 0 {
				inc("stopped before the answer")
			}
			return r, r == 0
		case cWait:
			r := s.Wait()
			check("Wait", r, false)
			return r, false
		case cTry, cTry0:
			d := time.Duration(0)
			if c == cTry {
				d = time.Millisecond
			}
			t0 := vsched.Now()
			r := s.Try(d)
			check("Try", r, vsched.Now() >= t0+int64(d))
			if r == 0 {
				inc("timed out before the answer")
			}
			return r, r == 0
		}
	}
	r = s.Wait()
	check("Wait", r, false)
	return r, false
}

func runC09(f *form, script []int32, script2 []int32) func() {
	return func() {
		var g *gini.Gini
		vsched.Atomic(func() {
			g = f.mk()
			g.Assume(lits(f.as)...)
		})
		r, _ := control(f, g, script, f.as, f.truth(f.as...))
		f.checkAnswer("after the background solve", g, r, f.as)
		if script2 != nil {
			// another background solve, other assumptions
			vsched.Note("second background solve")
			var as []int
			if len(f.ts) == 0 {
				as = []int{-1}
				g.Assume(lits(as)...)
			}
			r, _ := control(f, g, script2, as, f.truth(as...))
			f.checkAnswer("after the second background solve", g, r, as)
		}
		if w := vsched.Drain(); w != "" {
			vsched.Fail("left behind after the solve: %s", w)
		}
		vsched.Atomic(func() { reuse(f, g) })
	}
}

// reuse checks that the solver answers right afterwards.
func reuse(f *form, g inter.S) {
	r, w := g.Solve(), f.truth()
	failIf(r != w, "later Solve answers %d, the right answer is %d", r, w)
	f.checkAnswer("later Solve", g, r, nil)
	for _, l := range []int{1, -1} {
		g.Assume(lit(l))
		r, w := g.Solve(), f.truth(l)
		failIf(r != w, "later Solve under %d answers %d, the right answer is %d", l, r, w)
		f.checkAnswer("later Solve under an assumption", g, r, []int{l})
	}
	s := g.GoSolve()
	r = s.Wait()
	failIf(r != w1(f), "later background solve answers %d", r)
	f.checkAnswer("later background solve", g, r, nil)
	if len(f.ts) > 0 {
		g.Untest()
	}
	g.Add(lit(1))
	g.Add(z.LitNull)
	f2 := &form{nv: f.nv, cs: append(append([][]int(nil), f.cs...), []int{1})}
	r, w = g.Solve(), f2.truth()
	failIf(r != w, "Solve after a clause was added answers %d, the right answer is %d", r, w)
	f2.checkAnswer("Solve after a clause was added", g, r, nil)
}

func w1(f *form) int { return f.truth() }

// two solvers, original and copy made during a pause, both in the background.
func runPair(f *form, ops []int32) func() {
	return func() {
		var g *gini.Gini
		vsched.Atomic(func() {
			g = f.mk()
			g.Assume(lits(f.as)...)
		})
		want := f.truth(f.as...)
		s := g.GoSolve()
		r, ok := s.Pause()
		if !ok {
			failIf(r != want, "Pause returned %d, the right answer is %d", r, want)
			return
		}
		d := g.Copy()
		t := d.GoSolve()
		s.Unpause()
		end := func(s inter.Solve, g *gini.Gini, op int32, name string) {
			var r int
			if op == cStop {
				r = s.Stop()
				failIf(r != want && r != 0, "%s: Stop returned %d, the right answer is %d", name, r, want)
			} else {
				r = s.Wait()
				failIf(r != want, "%s: Wait returned %d, the right answer is %d", name, r, want)
			}
			f.checkAnswer(name, g, r, f.as)
		}
		end(t, d, ops[0], "copy")
		end(s, g, ops[1], "original")
		if w := vsched.Drain(); w != "" {
			vsched.Fail("left behind after the solves: %s", w)
		}
		vsched.Atomic(func() { reuse(f, g); reuse(f, d) })
	}
}

// runStats is a monitored solve: what it reports along the way, by another
// goroutine's reading of the statistics in between, and what comes after.
func runStats(f *form, timeout, freq int32, reader, twice bool) func() {
	return func() {
		var g *gini.Gini
		vsched.Atomic(func() {
			g = f.mk()
			g.Assume(lits(f.as)...)
		})
		want := f.truth(f.as...)
		as := f.as
		gini.ReadStats(g) // what was counted before
		for round := 0; ; round++ {
			s := g.GoSolve()
			t0 := vsched.Now()
			c := gini.TryStats(s, time.Duration(timeout), time.Duration(freq))
			other := vsched.NewChan[int](1)
			if reader {
				vsched.Named("reader", func() {
					_, _, n := gini.ReadStats(g)
					failIf(n != f.nv, "statistics read meanwhile speak of %d variables", n)
					other.Send(1)
				})
			}
			r, items := 0, 0
			for {
				x, ok := c.Recv2()
				if !ok {
					break
				}
				items++
				failIf(r != 0, "a report after the result")
				failIf(x.Stats == nil, "no statistics")
				failIf(x.Result != 0 && x.Result != want, "TryStats reports %d, the right answer is %d", x.Result, want)
				failIf(x.Stats.Vars != f.nv, "statistics speak of %d variables", x.Stats.Vars)
				r = x.Result
			}
			inc("reports of " + fmt.Sprint(items) + " items")
			if r == 0 {
				failIf(vsched.Now() < t0+int64(timeout), "TryStats ends without a result before its time")
				inc("timed out before the answer")
				r = s.Stop()
				failIf(r != 0 && r != want, "Stop after TryStats returned %d, the right answer is %d", r, want)
			}
			if reader {
				other.Recv()
			}
			f.checkAnswer("after a monitored solve", g, r, as)
			if w := vsched.Drain(); w != "" {
				vsched.Fail("left behind after a monitored solve: %s", w)
			}
			if !twice || round > 0 {
				break
			}
			vsched.Note("second monitored solve")
			gini.ReadStats(g)
			as = nil
			if len(f.ts) == 0 {
				as = []int{-1}
				g.Assume(lits(as)...)
			}
			want = f.truth(as...)
		}
		vsched.Atomic(func() { reuse(f, g) })
	}
}

func c09() *eng.Prop {
	fs := forms()
	// scripts: steps that can leave the solve running, then one that ends it
	scripts := func(maxLen int, yield func(s []int32) bool) {
		var s []int32
		var rec func(n int) bool
		rec = func(n int) bool {
			for _, e := range []int32{cStop, cWait, cTry, cTry0} {
				if !yield(append(append([]int32(nil), s...), e)) {
					return false
				}
			}
			if n == 0 {
				return true
			}
			for _, e := range []int32{cTest, cPause, cPauseCopy} {
				s = append(s, e)
				if !rec(n - 1) {
					return false
				}
				s = s[:len(s)-1]
			}
			return true
		}
		rec(maxLen)
	}
	show := func(c []int32) string {
		return fmt.Sprintf("formula %s, controller: %s", fs[c[0]].name, scriptName(c[1:]))
	}
	ctl := &eng.Part{
		Name: "ctl",
		Desc: "every controller script of up to 4 (main formulas 5; thorough 6 and 7; the largest formulas 3 and 4) steps over Test, Pause/Unpause, Pause/Copy/Unpause before a final Stop, Wait, Try or Try(0), over 15 formulas, under every schedule",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for fi, f := range fs {
				n := t.Pick(4, 6)
				if f.main {
					n++
				}
				if f.big {
					n = t.Pick(3, 4)
				}
				ok := true
				scripts(n, func(s []int32) bool {
					ok = yield(append([]int32{int32(fi)}, s...))
					return ok
				})
				if !ok {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			return exploreCase(show(c), runC09(fs[c[0]], c[1:], nil), 0, 3000, 0, cov)
		},
		Show: show,
		Hang: time.Minute, Dynamic: true,
	}
	twice := &eng.Part{
		Name: "twice",
		Desc: "two background solves of one solver after each other, each under every controller script with up to 2 (thorough 3) steps before the final one; every schedule",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for fi, f := range fs {
				if f.big && t == eng.Quick {
					continue
				}
				ok := true
				scripts(t.Pick(2, 3), func(a []int32) bool {
					scripts(t.Pick(2, 3), func(b []int32) bool {
						if (f.big && len(a)+len(b) > 3) || (t == eng.Quick && len(a)+len(b) > 5) {
							return true
						}
						c := append([]int32{int32(fi), int32(len(a))}, a...)
						ok = yield(append(c, b...))
						return ok
					})
					return ok
				})
				if !ok {
					return
				}
			}
		},
		Show: func(c []int32) string {
			k := 2 + c[1]
			return fmt.Sprintf("formula %s, controller: %s; then %s", fs[c[0]].name, scriptName(c[2:k]), scriptName(c[k:]))
		},
		Hang: time.Minute, Dynamic: true,
	}
	twice.Run = func(c []int32, cov *eng.Cov) error {
		k := 2 + c[1]
		return exploreCase(twice.Show(c), runC09(fs[c[0]], c[2:k], c[k:]), 0, 5000, 0, cov)
	}
	pair := &eng.Part{
		Name: "pair",
		Desc: "a paused solve and a copy made meanwhile run in the background together, each ended by Stop or Wait; every schedule",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for fi := range fs {
				for _, a := range []int32{cStop, cWait} {
					for _, b := range []int32{cStop, cWait} {
						if !yield([]int32{int32(fi), a, b}) {
							return
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			return exploreCase(show(c), runPair(fs[c[0]], c[1:]), 0, 5000, 0, cov)
		},
		Show: show,
		Hang: time.Minute, Dynamic: true,
	}
	stats := &eng.Part{
		Name: "stats",
		Desc: "monitored solves (TryStats), one or two (quick: without extra ticks) after each other, the ticker firing up to 2 (thorough 3) times of its own accord, one or no other goroutine reading the statistics; a Stop where the time ran out; every schedule",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for fi, f := range fs {
				for ticks := int32(0); ticks <= int32(t.Pick(2, 3)); ticks++ {
					if f.big && ticks > 1 {
						continue
					}
					for reader := int32(0); reader < 2; reader++ {
						if reader == 1 && (ticks > 1 || ticks == 1 && f.nv > 3) && t == eng.Quick {
							continue
						}
						for twice := int32(0); twice < 2; twice++ {
							if twice == 1 && (ticks+reader > int32(t.Pick(0, 1)) || f.big) {
								continue
							}
							for _, freq := range []int32{1000, 3000} {
								if !yield([]int32{int32(fi), ticks, 2000, freq, reader, twice}) {
									return
								}
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			return exploreCase(fmt.Sprint(c), runStats(fs[c[0]], c[2], c[3], c[4] > 0, c[5] > 0), int(c[1]), 5000, 0, cov)
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("formula %s, ticks %d, timeout %d, every %d, reader %d, twice %d", fs[c[0]].name, c[1], c[2], c[3], c[4], c[5])
		},
		Hang: time.Minute, Dynamic: true,
	}
	red := reduction(ctl, 5, func(c []int32) (func(), int) { return runC09(fs[c[0]], c[1:], nil), 0 })
	return &eng.Prop{
		ID: "C09", Level: "model_checking",
		Rule: "a case (formula and controller script) is non-trivial when it has more than one schedule",
		Parts: []*eng.Part{ctl, twice, pair, stats,
			races(ctl, "scripts of up to 4 steps, thorough 5", func(t eng.Tier, c []int32) bool { return len(c)-1 <= t.Pick(4, 5) }),
			races(twice, "scripts of up to 4 steps together, thorough 5", func(t eng.Tier, c []int32) bool { return len(c)-2 <= t.Pick(4, 5) }),
			races(stats, "quick: at most one tick, every other formula", func(t eng.Tier, c []int32) bool { return t == eng.Thorough || c[1] <= 1 && c[0]%2 == 0 }),
			races(pair, "all", func(t eng.Tier, c []int32) bool { return true }),
			red, toys()},
		Notes: []string{
			"the code runs with its goroutines, channels, timers and locks redirected to a controlled scheduler (syntax-tree rewriting with types, checked by the compiler); search thresholds are scaled down so that the solver looks for stop and pause requests at every step",
			"interleavings are at the level of synchronisation operations (sequentially consistent); the parts \"-races\" look for data races between them in every one of those they run",
		},
	}
}
