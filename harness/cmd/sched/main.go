//go:build sched

// Command sched decides the properties about concurrency: it runs the real
// code under a controlled scheduler and enumerates the schedules.
package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/vsched"
	"github.com/go-air/gini/z"

	"vh/eng"
	"vh/sat"
)

func main() {
	runtime.GOMAXPROCS(1)
	eng.Main(c09(), c21(), c22(), c23(), c24())
}

func lit(i int) z.Lit { return z.Dimacs2Lit(i) }
func lits(is []int) []z.Lit {
	var r []z.Lit
	for _, i := range is {
		r = append(r, lit(i))
	}
	return r
}

// form is a formula with assumptions.
type form struct {
	name string
	nv   int
	cs   [][]int
	as   []int // assumed for the solve
	ts   []int // assumed and tested before
	main bool  // used with the longest scripts
	big  bool  // used with short scripts only
}

func (f *form) truth(extra ...int) int {
	b := sat.Full(f.nv).WithClauses(f.cs).With(f.ts...).With(extra...)
	if b.Empty() {
		return -1
	}
	return 1
}

func xor(vs ...int) func(rhs int) [][]int {
	return func(rhs int) [][]int { return sat.Xor(nil, vs, rhs) }
}

func forms() []*form {
	var x1, x2, x3 [][]int
	x1 = sat.Xor(x1, []int{1, 2, 3}, 1)
	x1 = sat.Xor(x1, []int{3, 4}, 1)
	x1 = sat.Xor(x1, []int{1, 2, 4}, 1) // contradiction: unsat after search
	x2 = sat.Xor(x2, []int{1, 2, 3}, 1)
	x2 = sat.Xor(x2, []int{3, 4}, 0)
	x3 = sat.Xor(x3, []int{1, 2, 3}, 0)
	x3 = sat.Xor(x3, []int{2, 3, 4}, 1)
	pn, pc := sat.Pigeons(3, 2)
	qn, qc := sat.Pigeons(4, 3)
	rn, rc := sat.Pigeons(3, 3)
	return []*form{
		{name: "sat3", nv: 3, cs: [][]int{{1, 2}, {-1, 3}, {-2, -3}}, main: true},
		{name: "unsat2", nv: 2, cs: [][]int{{1, 2}, {1, -2}, {-1, 2}, {-1, -2}}, main: true},
		{name: "units", nv: 2, cs: [][]int{{1}, {-1, 2}, {-2}}},
		{name: "empty", nv: 2, cs: nil},
		{name: "emptyclause", nv: 1, cs: [][]int{{}}},
		{name: "xor-unsat", nv: 4, cs: x1, main: true},
		{name: "xor-sat", nv: 4, cs: x2},
		{name: "assume-sat", nv: 4, cs: x2, as: []int{1, -3}},
		{name: "assume-unsat", nv: 4, cs: x3, as: []int{-1, 4, 2, -3}, main: true},
		{name: "assume-clash", nv: 3, cs: [][]int{{1, 2, 3}}, as: []int{1, -1}},
		{name: "tested", nv: 4, cs: x2, ts: []int{1}, as: []int{2}},
		{name: "tested-unsat", nv: 4, cs: x1, ts: []int{1}},
		{name: "php32", nv: pn, cs: pc},
		{name: "php33", nv: rn, cs: rc, big: true},
		{name: "php43", nv: qn, cs: qc, big: true},
	}
}

// mk builds the solver of a formula (no scheduling points matter here).
func (f *form) mk() *gini.Gini {
	g := gini.New()
	for i := 1; i <= f.nv; i++ {
		g.Lit()
	}
	for _, c := range f.cs {
		for _, l := range c {
			g.Add(lit(l))
		}
		g.Add(z.LitNull)
	}
	if len(f.ts) > 0 {
		g.Assume(lits(f.ts)...)
		if r, _ := g.Test(nil); r == -1 {
			panic("formula conflicts under tested assumptions")
		}
	}
	return g
}

// checkAnswer checks what can be read after an answer.
func (f *form) checkAnswer(where string, g inter.S, r int, as []int) {
	switch r {
	case 1:
		b := sat.Full(f.nv).WithClauses(f.cs).With(f.ts...).With(as...)
		a := uint(0)
		for v := 1; v <= f.nv; v++ {
			p, n := g.Value(lit(v)), g.Value(lit(-v))
			if p == n {
				vsched.Fail("%s: value of %d and of its negation are both %v", where, v, p)
			}
			if p {
				a |= 1 << uint(v-1)
			}
		}
		if !b.Has(a) {
			vsched.Fail("%s: the values read after a sat answer are no model", where)
		}
	case -1:
		why := g.Why(nil)
		all := append(append([]int(nil), f.ts...), as...)
		var ws []int
		for _, m := range why {
			ok := false
			for _, x := range all {
				if lit(x) == m {
					ok = true
				}
			}
			if !ok {
				vsched.Fail("%s: failed assumption %s was not assumed (%v)", where, m, all)
			}
			ws = append(ws, m.Dimacs())
		}
		b := sat.Full(f.nv).WithClauses(f.cs).With(ws...)
		if !b.Empty() {
			vsched.Fail("%s: failed assumptions %v do not suffice", where, ws)
		}
	}
}

func failIf(c bool, f string, a ...interface{}) {
	if c {
		vsched.Fail(f, a...)
	}
}

// counts of one case, over all its schedules (no map: the race detector would
// see the goroutines of the harness use it)
var counts []count

type count struct {
	k string
	n int64
}

//go:norace
func inc(k string) {
	for i := range counts {
		if counts[i].k == k {
			counts[i].n++
			return
		}
	}
	counts = append(counts, count{k, 1})
}

// exploreCase explores all schedules of one scenario.
func dbgFile() *os.File {
	f, _ := os.OpenFile(os.Getenv("DBG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o666)
	return f
}

func exploreCase(name string, f func(), ticks, limit, max int, cov *eng.Cov) error {
	counts = nil
	defer func() {
		for _, c := range counts {
			cov.Add(c.k, c.n)
		}
	}()
	r := vsched.Explore(f, vsched.Opt{Ticks: ticks, Limit: limit, Max: max, Stop: eng.OutOfTimeBeat})
	if dbg {
		fmt.Fprintln(dbgFile(), name, r.Runs, r.Pruned, r.Steps/int64(r.Runs+1))
	}
	return explored(name, r, cov)
}

func explored(name string, r vsched.Res, cov *eng.Cov) error {
	eng.Beat()
	cov.Trans += r.Steps
	cov.States += r.Choices
	cov.Traces += int64(r.Runs)
	cov.Add("schedules", int64(r.Runs))
	cov.Add("redundant schedules cut", int64(r.Pruned))
	if r.Capped {
		cov.Inc("cut short") // the engine reports the part as not exhaustive
	}
	if r.Runs > 1 {
		cov.Nontriv++
	}
	if r.Fail != "" {
		r.Fail += raceReport()
		tr := r.Trace
		if len(tr) > 120 {
			tr = append([]string{"..."}, tr[len(tr)-120:]...)
		}
		return fmt.Errorf("%s: %s\nschedule %v\n%s", name, r.Fail, r.Sched, strings.Join(tr, "\n"))
	}
	return nil
}

// raceLog is where the race detector of this process writes.
func raceLog() string { return os.TempDir() + "/vhrace" }

// raceReport is the first report of the race detector.
func raceReport() string {
	if !vsched.Race {
		return ""
	}
	f := fmt.Sprintf("%s.%d", raceLog(), os.Getpid())
	b, e := os.ReadFile(f)
	os.Remove(f)
	if e != nil {
		return ""
	}
	t := strings.Split(string(b), "==================\n")
	if len(t) < 2 {
		return ""
	}
	return "\n" + t[1]
}

// races runs the cases of a part, or those kept, in the build with the race
// detector: a violation is also a schedule with two accesses to the same
// memory, one of them a write, that no synchronisation of the program orders.
func races(of *eng.Part, some string, keep func(t eng.Tier, c []int32) bool) *eng.Part {
	p := *of
	p.Name += "-races"
	p.Desc = "data races: part " + of.Name + " (" + some + ") in a build with the race detector, which sees the synchronisation of the program but not that of the scheduler; every schedule"
	p.Enum = func(t eng.Tier, yield func(c []int32) bool) {
		of.Enum(t, func(c []int32) bool { return !keep(t, c) || yield(c) })
	}
	p.Exe = "sched-race"
	p.Env = []string{"GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 atexit_sleep_ms=0 exitcode=0 log_path=" + raceLog()}
	return &p
}

// reduction compares, for the scenarios with few enough schedules, the partial
// orders of operations that the reduced exploration sees with those seen when
// every interleaving is run.  (It validates the machinery, not the code: what
// it finds is in the evidence.)
func reduction(of *eng.Part, maxLen int, scenario func(c []int32) (f func(), ticks int)) *eng.Part {
	return &eng.Part{
		Name: of.Name + "-reduction",
		Desc: "for every short scenario of part " + of.Name + " with at most 300 schedules after reduction: all interleavings, without reduction (up to 2000, thorough 400000), against the reduced set",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			of.Enum(t, func(c []int32) bool {
				return len(c) > maxLen || yield(c)
			})
		},
		Run: func(c []int32, cov *eng.Cov) error {
			f, ticks := scenario(c)
			a, b := map[uint64]bool{}, map[uint64]bool{}
			ra := vsched.Explore(f, vsched.Opt{Ticks: ticks, Limit: 3000, Max: 600, Set: a, Stop: eng.OutOfTimeBeat})
			if ra.Capped || ra.Runs > 300 || ra.Fail != "" {
				return nil
			}
			max := 2000
			if eng.CurTier() == eng.Thorough {
				max = 400000
			}
			rb := vsched.Explore(f, vsched.Opt{Ticks: ticks, Limit: 3000, Max: max, Full: true, Set: b, Stop: eng.OutOfTimeBeat})
			eng.Beat()
			cov.Trans += rb.Steps
			if rb.Capped {
				cov.Inc("too many interleavings")
				return nil
			}
			cov.Inc("scenarios compared")
			cov.Nontriv++
			cov.Traces += int64(rb.Runs)
			cov.Add("interleavings", int64(rb.Runs))
			cov.Add("schedules after reduction", int64(ra.Runs))
			cov.Add("partial orders", int64(len(b)))
			for x := range b {
				if !a[x] {
					cov.Inc("partial orders missed by the reduction")
					cov.Inc("cut short")
				}
			}
			if rb.Fail != "" {
				return fmt.Errorf("%s: %s\nschedule %v\n%s", of.Show(c), rb.Fail, rb.Sched, strings.Join(rb.Trace, "\n"))
			}
			return nil
		},
		Show:    of.Show,
		Hang:    time.Minute,
		Dynamic: true,
	}
}
