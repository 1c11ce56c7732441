//go:build sched

package main

import (
	"time"

	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/vsched"
	"github.com/go-air/gini/z"

	"vh/sat"
)

// stubS is a solver whose solves take as long as the schedule says: a right
// answer by truth table is handed over in one step.  It also watches that
// nobody uses it while it is busy.
type stubS struct {
	f    *form
	as   []int
	used []int // assumptions of the last solve
	res  int
	busy bool
	rc   *vsched.Chan[int]
	sc   *vsched.Chan[int]
}

func newStub(f *form) *stubS {
	return &stubS{f: f, rc: vsched.NewChan[int](0), sc: vsched.NewChan[int](0)}
}

func (s *stubS) idle(op string) {
	if s.busy {
		vsched.Fail("%s on a solver that is busy", op)
	}
}

func (s *stubS) MaxVar() z.Var { return z.Var(s.f.nv) }
func (s *stubS) Lit() z.Lit    { panic("Lit") }
func (s *stubS) Add(z.Lit)     { panic("Add") }
func (s *stubS) Assume(ms ...z.Lit) {
	s.idle("Assume")
	for _, m := range ms {
		s.as = append(s.as, m.Dimacs())
	}
}
func (s *stubS) Solve() int {
	s.idle("Solve")
	s.used, s.as = s.as, nil
	s.res = s.f.truth(s.used...)
	return s.res
}
func (s *stubS) Try(d time.Duration) int { return s.Solve() }
func (s *stubS) Value(m z.Lit) bool {
	s.idle("Value")
	if s.res != 1 {
		vsched.Fail("Value without a sat answer")
	}
	b := sat.Full(s.f.nv).WithClauses(s.f.cs).With(s.used...)
	for a := uint(0); ; a++ {
		if b.Has(a) {
			x := a>>uint(m.Var()-1)&1 == 1
			return x == m.IsPos()
		}
	}
}
func (s *stubS) Why(dst []z.Lit) []z.Lit {
	s.idle("Why")
	if s.res != -1 {
		vsched.Fail("Why without an unsat answer")
	}
	return append(dst, lits(s.used)...)
}
func (s *stubS) Test(dst []z.Lit) (int, []z.Lit)      { panic("Test") }
func (s *stubS) Untest() int                          { panic("Untest") }
func (s *stubS) Reasons(dst []z.Lit, m z.Lit) []z.Lit { panic("Reasons") }
func (s *stubS) SCopy() inter.S {
	s.idle("SCopy")
	c := newStub(s.f)
	c.as = append([]int(nil), s.as...)
	return c
}

func (s *stubS) GoSolve() inter.Solve {
	r := s.Solve()
	s.busy = true
	s.res = 0
	vsched.Go(func() {
		c := vsched.SendCase(s.rc, r)
		d := vsched.RecvCase(s.sc)
		if vsched.Select(false, c, d) == 1 {
			s.rc.Send(0)
		}
	})
	return &stubCtl{s: s}
}

type stubCtl struct {
	s    *stubS
	over bool
}

func (c *stubCtl) use() {
	if c.over {
		vsched.Fail("solve used after its result was delivered")
	}
}

func (c *stubCtl) end(r int) int {
	c.over = true
	c.s.busy = false
	c.s.res = r
	return r
}

func (c *stubCtl) Stop() int {
	c.use()
	x := vsched.RecvCase(c.s.rc)
	y := vsched.SendCase(c.s.sc, 1)
	if vsched.Select(false, x, y) == 0 {
		return c.end(x.Get())
	}
	return c.end(c.s.rc.Recv())
}

func (c *stubCtl) Test() (int, bool) {
	c.use()
	x := vsched.RecvCase(c.s.rc)
	if vsched.Select(true, x) == 0 {
		return c.end(x.Get()), true
	}
	return 0, false
}

func (c *stubCtl) Wait() int { c.use(); return c.end(c.s.rc.Recv()) }

func (c *stubCtl) Try(d time.Duration) int {
	c.use()
	t := vsched.NewChan[int](1)
	vsched.AddTimer(d, 0, t, func() { t.Fire(1) }, nil)
	x := vsched.RecvCase(c.s.rc)
	y := vsched.RecvCase(t)
	if vsched.Select(false, x, y) == 0 {
		return c.end(x.Get())
	}
	return c.Stop()
}
func (c *stubCtl) Pause() (int, bool) { panic("Pause") }
func (c *stubCtl) Unpause()           { panic("Unpause") }
