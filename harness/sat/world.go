package sat

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"vh/eng"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"
)

// Op kinds of solver scripts.  An op is kind<<16 | arg.
const (
	OpAdd     = iota + 1 // add clause Table[arg]
	OpAssume             // assume literal (arg-LitBase)
	OpSolve              // Solve
	OpTest               // Test
	OpUntest             // Untest
	OpWhy                // Why (after -1)
	OpReasons            // Reasons of everything returned so far
	OpLit                // Lit
	OpCopy               // continue on a copy, keeping the original for OpSwap
	OpSwap               // switch between original and copy
	OpAct                // Activate clause Table[arg]
	OpActLit             // m := ActivationLit
	OpActWith            // add clause Table[arg&0xff] with activation literal slot arg>>8
	OpDeact              // deactivate slot arg
	OpAssAct             // assume the activation literal in slot arg
	OpWrite              // Write and compare
	OpTry                // Try with a long duration
	OpGoSolve            // GoSolve + Wait
	OpTry0               // Try with a non-positive duration
	OpInner              // allocate a hidden variable (inter.Sv)
	OpFree               // free hidden variable number arg
)

const LitBase = 100

func Mk(kind, arg int) int32  { return int32(kind<<16 | arg) }
func MkLit(kind, l int) int32 { return Mk(kind, l+LitBase) }

var opName = map[int]string{OpAdd: "add", OpAssume: "assume", OpSolve: "solve", OpTest: "test", OpUntest: "untest", OpWhy: "why", OpReasons: "reasons", OpLit: "lit", OpCopy: "copy", OpSwap: "swap", OpAct: "activate", OpActLit: "actlit", OpActWith: "actwith", OpDeact: "deactivate", OpAssAct: "assume-act", OpWrite: "write", OpTry: "try", OpGoSolve: "gosolve", OpTry0: "try0", OpInner: "inner", OpFree: "free"}

// ShowOps renders a script.
func ShowOps(table [][]int, ops []int32) string {
	var sb strings.Builder
	for i, op := range ops {
		if i > 0 {
			sb.WriteString("; ")
		}
		k, a := int(op>>16), int(op&0xffff)
		sb.WriteString(opName[k])
		switch k {
		case OpAdd, OpAct:
			fmt.Fprintf(&sb, "%v", table[a])
		case OpActWith:
			fmt.Fprintf(&sb, "%v@slot%d", table[a&0xff], a>>8)
		case OpAssume:
			fmt.Fprintf(&sb, "(%d)", a-LitBase)
		case OpDeact, OpAssAct:
			fmt.Fprintf(&sb, "(slot%d)", a)
		case OpFree:
			fmt.Fprintf(&sb, "(#%d)", a)
		}
	}
	return sb.String()
}

type slot struct {
	m       z.Lit
	clauses []int // table indices
	live    bool
}

// side is one solver together with its reference state.
type side struct {
	g      *gini.Gini
	s      inter.S
	phi    BS      // models of permanent clauses
	cs     [][]int // permanent clauses
	pend   []int   // untested assumptions (reference literals)
	pendA  []z.Lit // untested activation assumptions
	scopes [][]int
	scopeA [][]z.Lit
	failed []bool // per scope: Test returned -1
	dead   bool   // an Untest returned -1: no Test allowed until Untest returns 0
	extra  []z.Lit
	slots  []slot
	inners []z.Lit // hidden variables in use (0: freed)
	// last query
	lastRes  int
	lastQ    bool // a query has been answered and nothing happened since
	lastAss  []int
	lastActs []z.Lit
	returned []z.Lit // literals returned by tests, in force
	retLens  []int
	maxVar   int
}

// World drives solver(s) in lock step with the reference.
type World struct {
	NV    int
	Table [][]int
	// Vmap maps reference variable i to the solver variable.
	Vmap          []int
	inv           map[int]int
	lazy          bool
	a, b          *side
	Complete      bool // also require Test to be complete for unit propagation
	States, Trans int64
	seen          map[string]bool
	NoModelActs   bool
	MaxWhy        bool
	Buf           []z.Lit
	// SolveFn, when set, replaces the call to Solve.
	SolveFn func(s inter.S) int
	// TryDur, when set, replaces the long duration given to Try; TryMay0
	// says whether Try may then have been out of time.
	TryDur  time.Duration
	TryMay0 func() bool
	// TryHook, when set, is called before a Try with a non-zero argument;
	// what it returns is called after it.
	TryHook func(k int) func()
}

// NewWorld makes a world over n reference variables.
func NewWorld(n int, table [][]int, g *gini.Gini, vmap []int) *World {
	w := &World{NV: n, Table: table, Vmap: vmap}
	if vmap != nil {
		w.inv = map[int]int{}
		for i := 1; i <= n; i++ {
			w.inv[vmap[i]] = i
		}
	}
	w.a = &side{phi: Full(n)}
	if g != nil {
		w.a.g, w.a.s = g, g
	}
	if vmap == nil && g != nil {
		// claim the reference variables, so that fresh ones do not collide
		for i := 1; i <= n; i++ {
			g.Lit()
		}
	}
	return w
}

// NewWorldS makes a world around any solver; the reference variables are not
// claimed beforehand.
func NewWorldS(n int, table [][]int, s inter.S, vmap []int) *World {
	w := NewWorld(n, table, nil, vmap)
	w.a.s = s
	w.lazy = true
	return w
}

// mentioned tells whether variable v occurs in anything given to the solver.
func (s *side) mentioned(v int) bool {
	for _, c := range s.cs {
		for _, l := range c {
			if l == v || l == -v {
				return true
			}
		}
	}
	as, _ := s.inForce(true)
	for _, l := range append(as, s.lastAss...) {
		if l == v || l == -v {
			return true
		}
	}
	return false
}

func (w *World) ToZ(l int) z.Lit {
	v, neg := l, false
	if l < 0 {
		v, neg = -l, true
	}
	if w.Vmap != nil {
		v = w.Vmap[v]
	}
	m := z.Var(v).Pos()
	if neg {
		m = m.Not()
	}
	return m
}

// FromZ returns the reference literal, or 0 if m is not over a reference variable.
func (w *World) FromZ(m z.Lit) int {
	v := int(m.Var())
	if w.inv != nil {
		x, ok := w.inv[v]
		if !ok {
			return 0
		}
		v = x
	} else if v > w.NV {
		return 0
	}
	if !m.IsPos() {
		return -v
	}
	return v
}

// allAss returns all assumptions in force including pending ones.
func (s *side) inForce(withPend bool) (as []int, acts []z.Lit) {
	for i := range s.scopes {
		as = append(as, s.scopes[i]...)
		acts = append(acts, s.scopeA[i]...)
	}
	if withPend {
		as = append(as, s.pend...)
		acts = append(acts, s.pendA...)
	}
	return
}

func has(ms []z.Lit, m z.Lit) bool {
	for _, x := range ms {
		if x == m {
			return true
		}
	}
	return false
}

// setOf is the set of models over reference variables under assumptions.
// contradiction among activation literals cannot arise (only assumed positively).
func (w *World) setOf(s *side, as []int, acts []z.Lit) BS {
	b := s.phi.With(as...)
	for _, sl := range s.slots {
		if sl.live && has(acts, sl.m) {
			for _, ci := range sl.clauses {
				b.AndClause(w.Table[ci])
			}
		}
	}
	return b
}

func (w *World) clausesOf(s *side, acts []z.Lit) [][]int {
	cs := s.cs
	cs = cs[:len(cs):len(cs)]
	for _, sl := range s.slots {
		if sl.live && has(acts, sl.m) {
			for _, ci := range sl.clauses {
				cs = append(cs, w.Table[ci])
			}
		}
	}
	return cs
}

// checkModel: the values must satisfy everything in force.
func (w *World) checkModel(s *side, set BS, acts []z.Lit, what string) error {
	a := uint(0)
	for i := 1; i <= w.NV; i++ {
		m := w.ToZ(i)
		if m.Var() > s.s.MaxVar() {
			continue // never seen by the solver: free, either value is fine
		}
		p, n := s.s.Value(m), s.s.Value(m.Not())
		if p == n && w.lazy && !p && !s.mentioned(i) {
			continue // known to the caller's tables only, not to the solver
		}
		if p == n {
			return fmt.Errorf("%s: Value(%s)=%v and Value(%s)=%v", what, m, p, m.Not(), n)
		}
		if p {
			a |= 1 << uint(i-1)
		}
	}
	if !set.Has(a) {
		return fmt.Errorf("%s: reported values %0*b do not satisfy the clauses and assumptions in force", what, w.NV, a)
	}
	for _, m := range acts {
		if !s.s.Value(m) {
			return fmt.Errorf("%s: assumed activation literal %s has value false", what, m)
		}
	}
	return nil
}

func (w *World) checkQuery(s *side, kind string, res int, as []int, acts []z.Lit) error {
	set := w.setOf(s, as, acts)
	switch res {
	case 1:
		if set.Empty() {
			return fmt.Errorf("%s=1 but clauses %v with assumptions %v are unsatisfiable", kind, w.clausesOf(s, acts), as)
		}
		return w.checkModel(s, set, acts, kind+"=1")
	case -1:
		if !set.Empty() {
			return fmt.Errorf("%s=-1 but clauses %v with assumptions %v are satisfiable", kind, w.clausesOf(s, acts), as)
		}
	case 0:
	default:
		return fmt.Errorf("%s=%d", kind, res)
	}
	return nil
}

// CheckWhy checks failed assumptions after a -1.
func (w *World) CheckWhy(s *side) error {
	for round := 0; round < 2; round++ {
		var dst []z.Lit
		if round == 1 {
			dst = make([]z.Lit, 0, 16)
		}
		ws := s.s.Why(dst)
		var core []int
		var acts []z.Lit
		for _, m := range ws {
			r := w.FromZ(m)
			if r != 0 {
				ok := false
				for _, a := range s.lastAss {
					if a == r {
						ok = true
					}
				}
				if !ok {
					return fmt.Errorf("Why returned %v: %s is not among the assumptions %v", ws, m, s.lastAss)
				}
				core = append(core, r)
				continue
			}
			if !has(s.lastActs, m) {
				return fmt.Errorf("Why returned %v: %s is not among the assumptions (%v and activation literals %v)", ws, m, s.lastAss, s.lastActs)
			}
			acts = append(acts, m)
		}
		if !w.setOf(s, core, acts).Empty() {
			return fmt.Errorf("Why returned %v, but the clauses %v with just these are satisfiable (assumptions were %v)", ws, w.clausesOf(s, acts), s.lastAss)
		}
	}
	return nil
}

// checkReasons walks the implication graph from everything returned by tests.
func (w *World) checkReasons(s *side) error {
	as, acts := s.inForce(false)
	set := w.setOf(s, as, acts)
	base := w.setOf(s, nil, acts)
	_ = set
	state := map[z.Lit]int{}
	var rec func(m z.Lit) error
	rec = func(m z.Lit) error {
		switch state[m] {
		case 1:
			return fmt.Errorf("reasons are cyclic through %s", m)
		case 2:
			return nil
		}
		state[m] = 1
		rs := append([]z.Lit{}, s.s.Reasons(nil, m)...)
		for _, r := range rs {
			if r == z.LitNull || r.Var() > s.s.MaxVar() {
				return fmt.Errorf("reasons of %s are %v: not literals in use", m, rs)
			}
			if !s.s.Value(r) {
				return fmt.Errorf("reasons of %s are %v, but %s is not true", m, rs, r)
			}
		}
		rm := w.FromZ(m)
		allRef := rm != 0
		var rl []int
		for _, r := range rs {
			x := w.FromZ(r)
			if x == 0 {
				if !has(acts, r) {
					allRef = false
				}
				continue
			}
			rl = append(rl, x)
		}
		if len(rs) == 0 {
			if allRef {
				isA := false
				for _, a := range as {
					if a == rm {
						isA = true
					}
				}
				if !isA && !base.Implies(rm) {
					return fmt.Errorf("%s has no reasons but is neither an assumption in force nor implied by the clauses", m)
				}
			}
		} else if allRef {
			if !base.With(rl...).Implies(rm) {
				return fmt.Errorf("reasons %v of %s do not imply it with the clauses %v", rs, m, w.clausesOf(s, acts))
			}
		}
		for _, r := range rs {
			if e := rec(r); e != nil {
				return e
			}
		}
		state[m] = 2
		return nil
	}
	for _, m := range s.returned {
		if e := rec(m); e != nil {
			return e
		}
	}
	return nil
}

// Legal tells whether op may be applied now (API preconditions).
func (w *World) Legal(op int32) bool {
	s := w.a
	k, a := int(op>>16), int(op&0xffff)
	switch k {
	case OpAct:
		// documented: not for a clause that is empty under the facts known
		return len(s.scopes) == 0 && !s.phi.WithClauses([][]int{w.Table[a]}).Empty()
	case OpAdd, OpActLit, OpWrite:
		return len(s.scopes) == 0
	case OpActWith:
		return len(s.scopes) == 0 && a>>8 < len(s.slots) && s.slots[a>>8].live && !s.phi.WithClauses([][]int{w.Table[a&0xff]}).Empty()
	case OpDeact:
		return len(s.scopes) == 0 && a < len(s.slots) && s.slots[a].live && !has(s.pendA, s.slots[a].m)
	case OpAssAct:
		return a < len(s.slots) && s.slots[a].live
	case OpTest:
		if s.dead {
			return false
		}
		for _, f := range s.failed {
			if f {
				return false
			}
		}
		return !(s.lastQ && s.lastRes == -1)
	case OpUntest:
		return len(s.scopes) > 0
	case OpWhy:
		return s.lastQ && s.lastRes == -1
	case OpReasons:
		if s.dead {
			return false
		}
		for _, f := range s.failed {
			if f {
				return false
			}
		}
		return len(s.returned) > 0
	case OpSwap:
		return w.b != nil
	case OpFree:
		return a < len(s.inners) && s.inners[a] != 0
	}
	return true
}

// Exec applies one op to implementation and reference.
func (w *World) Exec(op int32) error {
	w.Trans++
	s := w.a
	k, arg := int(op>>16), int(op&0xffff)
	switch k {
	case OpAdd:
		c := w.Table[arg]
		for _, l := range c {
			s.s.Add(w.ToZ(l))
		}
		s.s.Add(0)
		s.phi = s.phi.Clone()
		s.phi.AndClause(c)
		s.cs = append(s.cs[:len(s.cs):len(s.cs)], c)
		s.lastQ = false
	case OpAssume:
		l := arg - LitBase
		s.s.Assume(w.ToZ(l))
		s.pend = append(s.pend[:len(s.pend):len(s.pend)], l)
	case OpAssAct:
		m := s.slots[arg].m
		s.s.Assume(m)
		s.pendA = append(s.pendA[:len(s.pendA):len(s.pendA)], m)
	case OpSolve, OpTry, OpGoSolve:
		as, acts := s.inForce(true)
		res := 0
		switch k {
		case OpSolve:
			if w.SolveFn != nil {
				res = w.SolveFn(s.s)
			} else {
				res = s.s.Solve()
			}
		case OpTry:
			d := time.Hour
			if w.TryHook != nil && arg != 0 {
				defer w.TryHook(arg)()
			}
			if w.TryDur != 0 {
				d = w.TryDur
			}
			res = s.s.Try(d)
			if res == 0 && w.TryMay0 != nil && w.TryMay0() {
				s.pend, s.pendA = nil, nil
				s.lastRes, s.lastQ, s.lastAss, s.lastActs = 0, true, as, acts
				return nil
			}
		case OpGoSolve:
			res = s.s.GoSolve().Wait()
		}
		s.pend, s.pendA = nil, nil
		if res == 0 {
			return fmt.Errorf("%s returned 0 without a timeout or stop", opName[k])
		}
		if e := w.checkQuery(s, opName[k], res, as, acts); e != nil {
			return e
		}
		s.lastRes, s.lastQ, s.lastAss, s.lastActs = res, true, as, acts
	case OpTry0:
		if r := s.s.Try(0); r != 0 {
			return fmt.Errorf("Try(0)=%d", r)
		}
		s.pend, s.pendA = nil, nil
	case OpTest:
		as, acts := s.inForce(true)
		np := s.pend
		s.scopes = append(s.scopes[:len(s.scopes):len(s.scopes)], s.pend)
		s.scopeA = append(s.scopeA[:len(s.scopeA):len(s.scopeA)], s.pendA)
		s.pend, s.pendA = nil, nil
		res, out := s.s.Test(make([]z.Lit, 0, 4))
		if e := w.checkQuery(s, "test", res, as, acts); e != nil {
			return e
		}
		s.lastRes, s.lastQ, s.lastAss, s.lastActs = res, true, as, acts
		s.failed = append(s.failed[:len(s.failed):len(s.failed)], res == -1)
		s.retLens = append(s.retLens[:len(s.retLens):len(s.retLens)], len(s.returned))
		if res == -1 {
			break
		}
		set := w.setOf(s, as, acts)
		for _, m := range out {
			if m == z.LitNull || m.Var() > s.s.MaxVar() {
				return fmt.Errorf("test returned %v: not literals in use", out)
			}
			r := w.FromZ(m)
			if r != 0 && res == 0 && !set.Implies(r) {
				return fmt.Errorf("test=0 returned %v: %s is not implied by clauses %v with assumptions %v", out, m, w.clausesOf(s, acts), as)
			}
			if !s.s.Value(m) {
				return fmt.Errorf("test=%d returned %v: %s is not true", res, out, m)
			}
		}
		for _, a := range np {
			if !s.s.Value(w.ToZ(a)) {
				return fmt.Errorf("test=%d: tested assumption %d is not true", res, a)
			}
		}
		s.returned = append(s.returned[:len(s.returned):len(s.returned)], out...)
		if res == 0 {
			// nothing may be assigned that is not implied
			for i := 1; i <= w.NV; i++ {
				m := w.ToZ(i)
				if m.Var() > s.s.MaxVar() {
					continue
				}
				if s.s.Value(m) && !set.Implies(i) {
					return fmt.Errorf("test=0: %d is reported true but not implied by clauses %v with assumptions %v", i, w.clausesOf(s, acts), as)
				}
				if s.s.Value(m.Not()) && !set.Implies(-i) {
					return fmt.Errorf("test=0: %d is reported true but not implied by clauses %v with assumptions %v", -i, w.clausesOf(s, acts), as)
				}
			}
		}
		if w.Complete && len(s.slots) == 0 {
			val, conf := BCP(w.NV, s.cs, as)
			if conf {
				return fmt.Errorf("test=%d but unit propagation refutes clauses %v with assumptions %v", res, s.cs, as)
			}
			for i := 1; i <= w.NV; i++ {
				if val[i] != 0 {
					if !s.s.Value(w.ToZ(i * int(val[i]))) {
						return fmt.Errorf("test=%d misses %d, which unit propagation derives from clauses %v with assumptions %v", res, i*int(val[i]), s.cs, as)
					}
				}
			}
		}
	case OpUntest:
		n := len(s.scopes) - 1
		s.scopes, s.scopeA, s.failed = s.scopes[:n], s.scopeA[:n], s.failed[:n]
		s.returned = s.returned[:s.retLens[n]]
		s.retLens = s.retLens[:n]
		res := s.s.Untest()
		as, acts := s.inForce(false)
		switch res {
		case -1:
			if !w.setOf(s, as, acts).Empty() {
				return fmt.Errorf("untest=-1 but clauses %v with the remaining assumptions %v are satisfiable", w.clausesOf(s, acts), as)
			}
			s.dead = true
			s.lastQ, s.lastRes, s.lastAss, s.lastActs = true, -1, as, acts
			// Why is about Test and Solve only
			s.lastQ = false
		case 0:
			s.dead = false
			s.lastQ = false
		default:
			return fmt.Errorf("untest=%d", res)
		}
	case OpWhy:
		if e := w.CheckWhy(s); e != nil {
			return e
		}
	case OpReasons:
		if e := w.checkReasons(s); e != nil {
			return e
		}
	case OpLit:
		mx := s.s.MaxVar()
		m := s.s.Lit()
		if !m.IsPos() {
			return fmt.Errorf("Lit returned negative literal %s", m)
		}
		if m.Var() <= mx {
			return fmt.Errorf("Lit returned %s, not above the maximum variable %d", m, mx)
		}
		if s.s.MaxVar() < m.Var() {
			return fmt.Errorf("Lit returned %s but MaxVar is %d", m, s.s.MaxVar())
		}
		for _, x := range s.extra {
			if x == m {
				return fmt.Errorf("Lit returned %s twice", m)
			}
		}
		s.extra = append(s.extra[:len(s.extra):len(s.extra)], m)
	case OpCopy:
		var o *side
		c := *s
		o = &c
		if s.g != nil {
			o.g = s.g.Copy()
			o.s = o.g
		} else {
			o.s = s.s.SCopy()
		}
		o.slots = append([]slot{}, s.slots...)
		w.b = s
		w.a = o
		if s.lastQ && s.lastRes == 1 && len(s.pend) == 0 {
			for i := 1; i <= w.NV; i++ {
				m := w.ToZ(i)
				if m.Var() <= s.s.MaxVar() && o.s.Value(m) != s.s.Value(m) {
					return fmt.Errorf("copy reports a different value for %s", m)
				}
			}
		}
		if o.s.MaxVar() != s.s.MaxVar() {
			return fmt.Errorf("copy has MaxVar %d, original %d", o.s.MaxVar(), s.s.MaxVar())
		}
	case OpSwap:
		w.a, w.b = w.b, w.a
	case OpAct, OpActLit:
		var m z.Lit
		if k == OpAct {
			c := w.Table[arg]
			for _, l := range c {
				s.s.Add(w.ToZ(l))
			}
			m = s.g.Activate()
		} else {
			m = s.g.ActivationLit()
		}
		if m == z.LitNull {
			return fmt.Errorf("null activation literal")
		}
		if w.FromZ(m) != 0 {
			return fmt.Errorf("activation literal %s collides with a variable in use", m)
		}
		for _, sl := range s.slots {
			if sl.live && sl.m.Var() == m.Var() {
				return fmt.Errorf("activation literal %s handed out while in use", m)
			}
		}
		for _, x := range s.extra {
			if x.Var() == m.Var() {
				return fmt.Errorf("activation literal %s collides with literal from Lit", m)
			}
		}
		sl := slot{m: m, live: true}
		if k == OpAct {
			sl.clauses = []int{arg}
		}
		s.slots = append(s.slots[:len(s.slots):len(s.slots)], sl)
		s.lastQ = false
	case OpActWith:
		i, ci := arg>>8, arg&0xff
		for _, l := range w.Table[ci] {
			s.s.Add(w.ToZ(l))
		}
		s.g.ActivateWith(s.slots[i].m)
		s.slots = append([]slot{}, s.slots...)
		s.slots[i].clauses = append(s.slots[i].clauses[:len(s.slots[i].clauses):len(s.slots[i].clauses)], ci)
		s.lastQ = false
	case OpDeact:
		s.slots = append([]slot{}, s.slots...)
		s.slots[arg].live = false
		s.g.Deactivate(s.slots[arg].m)
		s.lastQ = false
	case OpInner:
		m := s.s.(inter.Sv).Inner()
		if m == z.LitNull || !m.IsPos() || m.Var() == 0 {
			return fmt.Errorf("Inner returned %d", uint32(m))
		}
		if has(s.inners, m) {
			return fmt.Errorf("Inner returned %s, which is in use", m)
		}
		s.inners = append(s.inners[:len(s.inners):len(s.inners)], m)
	case OpFree:
		m := s.inners[arg]
		s.inners = append([]z.Lit{}, s.inners...)
		s.inners[arg] = 0
		s.s.(inter.Sv).FreeInner(m)
	case OpWrite:
		if e := w.checkWrite(s); e != nil {
			return e
		}
	default:
		panic(fmt.Sprintf("bad op %d", op))
	}
	return nil
}

// checkWrite: the written formula must have the models of the added clauses.
func (w *World) checkWrite(s *side) error {
	var buf bytes.Buffer
	if e := s.g.Write(&buf); e != nil {
		return fmt.Errorf("Write: %v", e)
	}
	txt := buf.String()
	cls, nv, nc, e := ParseDimacs(txt)
	if e != nil {
		return fmt.Errorf("Write produced %q: %v", txt, e)
	}
	if nc != len(cls) {
		return fmt.Errorf("Write: header says %d clauses, %d are written", nc, len(cls))
	}
	_ = nv
	b := Full(w.NV)
	for _, c := range cls {
		var rc []int
		skip := false
		for _, l := range c {
			v := l
			if v < 0 {
				v = -v
			}
			if v > nv {
				return fmt.Errorf("Write: literal %d above header variable count %d", l, nv)
			}
			r := w.FromZ(z.Dimacs2Lit(l))
			if r == 0 {
				// clause over other variables (activation): not comparable
				skip = true
				break
			}
			rc = append(rc, r)
		}
		if skip {
			if len(s.slots) == 0 {
				return fmt.Errorf("Write: clause %v mentions unused variables", c)
			}
			continue
		}
		b.AndClause(rc)
	}
	if !Equal(b, s.phi) {
		return fmt.Errorf("Write: written formula %v has %d models over the %d variables, the added clauses %v have %d", cls, b.Count(), w.NV, s.cs, s.phi.Count())
	}
	return nil
}

// ParseDimacs is a small independent reader for text the implementation wrote.
func ParseDimacs(txt string) (cls [][]int, nv, nc int, err error) {
	hdr := false
	var cur []int
	for _, line := range strings.Split(txt, "\n") {
		if strings.HasPrefix(line, "c") || strings.TrimSpace(line) == "" {
			continue
		}
		if strings.HasPrefix(line, "p") {
			if hdr {
				return nil, 0, 0, fmt.Errorf("two headers")
			}
			if _, e := fmt.Sscanf(line, "p cnf %d %d", &nv, &nc); e != nil {
				return nil, 0, 0, e
			}
			hdr = true
			continue
		}
		for _, t := range strings.Fields(line) {
			var x int
			if n, e := fmt.Sscanf(t, "%d", &x); n != 1 || e != nil || fmt.Sprint(x) != t {
				return nil, 0, 0, fmt.Errorf("bad token %q", t)
			}
			if x == 0 {
				cls = append(cls, cur)
				cur = nil
				continue
			}
			cur = append(cur, x)
		}
	}
	if !hdr {
		return nil, 0, 0, fmt.Errorf("no header")
	}
	if cur != nil {
		return nil, 0, 0, fmt.Errorf("unterminated clause")
	}
	return cls, nv, nc, nil
}

// Hash identifies the reference state (for counting distinct states).
func (w *World) Hash() uint64 {
	h := eng.NewH()
	for _, s := range []*side{w.a, w.b} {
		if s == nil {
			h.I(-7)
			continue
		}
		for _, x := range s.phi.W {
			h.U(x)
		}
		h.I(len(s.cs))
		for _, x := range s.pend {
			h.I(x)
		}
		for i, sc := range s.scopes {
			h.I(1000)
			for _, x := range sc {
				h.I(x)
			}
			if s.failed[i] {
				h.I(2000)
			}
		}
		for _, m := range s.pendA {
			h.I(3000 + int(m))
		}
		for _, sl := range s.slots {
			h.I(4000)
			if sl.live {
				for _, c := range sl.clauses {
					h.I(c)
				}
			}
		}
		h.I(len(s.extra))
		for _, m := range s.inners {
			h.I(5000 + int(m))
		}
		h.I(s.lastRes)
		if s.lastQ {
			h.I(1)
		}
		if s.dead {
			h.I(2)
		}
	}
	return uint64(h)
}

// LastRes returns the last answer of the current side.
func (w *World) LastRes() (int, bool) { return w.a.lastRes, w.a.lastQ }
func (w *World) Solver() *gini.Gini   { return w.a.g }
