// logic decides the circuit properties: C14-C17.
package main

import (
	"fmt"
	"sort"

	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/z"

	"vh/eng"
)

func main() { eng.Main(c14(), c15(), c16(), c17()) }

// prod enumerates the product of the dimensions.
func prod(yield func(c []int32) bool, dims ...int) bool {
	c := make([]int32, len(dims))
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(dims) {
			return yield(c)
		}
		for x := 0; x < dims[i]; x++ {
			c[i] = int32(x)
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

const all8 = 0xff

// cw is a circuit with what every literal must mean: a truth table over the
// first three inputs (bit i of a table: the value under assignment i).
type cw struct {
	c    *logic.C
	s    *logic.S
	ins  []z.Lit
	tt   map[z.Lit]uint8
	pool []z.Lit
	ops  []string
	n    int64
}

var inTT = []uint8{0xaa, 0xcc, 0xf0}

func newCW(c *logic.C, nIn int) *cw {
	w := &cw{c: c, tt: map[z.Lit]uint8{c.T: all8, c.F: 0}}
	w.pool = append(w.pool, c.T, c.F)
	for i := 0; i < nIn; i++ {
		m := c.Lit()
		w.ins = append(w.ins, m)
		w.tt[m], w.tt[m.Not()] = inTT[i], ^inTT[i]
		w.pool = append(w.pool, m, m.Not())
	}
	return w
}

// bind records that m must mean t.
func (w *cw) bind(m z.Lit, t uint8, what string) error {
	w.n++
	if m == z.LitNull || int(m.Var()) >= w.c.Len() {
		return fmt.Errorf("%s = %d, not a literal of the circuit", what, uint32(m))
	}
	if o, ok := w.tt[m]; ok && o != t {
		return fmt.Errorf("%s = %s, which means %08b, not %08b", what, m, o, t)
	}
	w.tt[m], w.tt[m.Not()] = t, ^t
	return nil
}

func (w *cw) And(a, b z.Lit) (z.Lit, error) {
	m := w.c.And(a, b)
	return m, w.bind(m, w.tt[a]&w.tt[b], fmt.Sprintf("And(%s,%s)", a, b))
}

// check evaluates everything under all assignments.
func (w *cw) check() error {
	n := w.c.Len()
	v64 := make([]uint64, n)
	for i, m := range w.ins {
		// all 64 lanes: 8 copies of the 8 assignments
		v64[m.Var()] = 0x0101010101010101 * uint64(inTT[i])
	}
	w.c.Eval64(v64)
	vs := make([]bool, n)
	for a := uint(0); a < 8; a++ {
		for i := range vs {
			vs[i] = false
		}
		for i, m := range w.ins {
			vs[m.Var()] = inTT[i]>>a&1 == 1
		}
		w.c.Eval(vs)
		for m, t := range w.tt {
			x := vs[m.Var()]
			if !m.IsPos() {
				x = !x
			}
			if x != (t>>a&1 == 1) {
				return fmt.Errorf("Eval: %s is %v under assignment %03b, its meaning is %08b", m, x, a, t)
			}
		}
	}
	for m, t := range w.tt {
		x := v64[m.Var()]
		if !m.IsPos() {
			x = ^x
		}
		if x != 0x0101010101010101*uint64(t) {
			return fmt.Errorf("Eval64: %s is %016x, its meaning is %08b in each of 8 groups", m, x, t)
		}
	}
	// the structure itself, through Ins: gates only refer to earlier nodes
	for i := 2; i < n; i++ {
		m := w.c.At(i)
		a, b := w.c.Ins(m)
		if a == z.LitNull {
			continue
		}
		if a.Var() >= m.Var() || b.Var() >= m.Var() {
			return fmt.Errorf("node %s has operands %s, %s: not in topological order", m, a, b)
		}
	}
	// structurally identical gates
	seen := map[[2]z.Lit]z.Lit{}
	for i := 2; i < n; i++ {
		m := w.c.At(i)
		a, b := w.c.Ins(m)
		if a == z.LitNull {
			continue
		}
		if b < a {
			a, b = b, a
		}
		if o, ok := seen[[2]z.Lit{a, b}]; ok {
			return fmt.Errorf("gates %s and %s are both And(%s,%s)", o, m, a, b)
		}
		seen[[2]z.Lit{a, b}] = m
	}
	pos := w.c.InPos(nil)
	if len(pos) != len(w.ins) {
		return fmt.Errorf("InPos gives %v, the inputs are %v", pos, w.ins)
	}
	for i, p := range pos {
		if w.c.At(p) != w.ins[i] {
			return fmt.Errorf("InPos gives %v, the inputs are %v", pos, w.ins)
		}
	}
	return nil
}

// one builder operation given by code; operands index the pool (mod its size,
// counted from the end for the newest).
const (
	oAnd = iota
	oOr
	oXor
	oImplies
	oChoice
	oCopy
	oLit
)

func (w *cw) apply(op int, a, b, d z.Lit) error {
	t := w.tt
	var m z.Lit
	var want uint8
	var what string
	switch op {
	case oAnd:
		m, want, what = w.c.And(a, b), t[a]&t[b], "And"
	case oOr:
		m, want, what = w.c.Or(a, b), t[a]|t[b], "Or"
	case oXor:
		m, want, what = w.c.Xor(a, b), t[a]^t[b], "Xor"
	case oImplies:
		m, want, what = w.c.Implies(a, b), ^t[a]|t[b], "Implies"
	case oChoice:
		m, want, what = w.c.Choice(a, b, d), t[a]&t[b]|^t[a]&t[d], "Choice"
	case oCopy:
		old := w.c
		w.c = w.c.Copy()
		// the original goes its own way
		old.And(a, b)
		old.Or(a, d)
		old.Lit()
		return nil
	}
	if e := w.bind(m, want, fmt.Sprintf("%s(%s,%s,%s)", what, a, b, d)); e != nil {
		return e
	}
	w.pool = append(w.pool, m)
	return nil
}

func c14() *eng.Prop {
	lits := func(w *cw, k int32) z.Lit { // 12 operands: constants, inputs, and the two newest
		if k < 8 {
			return w.pool[k]
		}
		n := len(w.pool)
		m := w.pool[n-1-int(k-8)/2]
		if k&1 == 1 {
			m = m.Not()
		}
		return m
	}
	// all operation instances over 12 operand choices
	type inst struct{ op, a, b, d int32 }
	var two, three []inst
	for op := int32(oAnd); op <= oImplies; op++ {
		for a := int32(0); a < 12; a++ {
			for b := int32(0); b < 12; b++ {
				two = append(two, inst{op, a, b, 0})
			}
		}
	}
	for a := int32(0); a < 12; a++ {
		for b := int32(0); b < 12; b++ {
			for d := int32(0); d < 12; d++ {
				three = append(three, inst{oChoice, a, b, d})
			}
		}
	}
	copyI := inst{oCopy, 2, 4, 7}
	alpha := append(append([]inst{}, two...), three...)
	alpha = append(alpha, copyI)
	var ands []inst
	for a := int32(0); a < 12; a++ {
		for b := a; b < 12; b++ {
			ands = append(ands, inst{oAnd, a, b, 0})
		}
	}
	for a := int32(2); a < 12; a += 2 {
		ands = append(ands, inst{oXor, a, 8, 0}, inst{oChoice, 8, a, 10})
	}
	ands = append(ands, copyI)
	run := func(al []inst, c []int32, cov *eng.Cov) error {
		w := newCW(logic.NewCCap(int(c[0])), 3)
		for _, k := range c[1:] {
			i := al[k]
			if e := w.apply(int(i.op), lits(w, i.a), lits(w, i.b), lits(w, i.d)); e != nil {
				return e
			}
		}
		cov.Trans += w.n
		cov.Traces++
		h := eng.NewH()
		for _, m := range w.pool[8:] {
			h.I(int(w.tt[m]))
		}
		eng.State(uint64(h))
		return w.check()
	}
	show := func(al []inst) func(c []int32) string {
		return func(c []int32) string {
			s := fmt.Sprintf("capacity %d;", c[0])
			for _, k := range c[1:] {
				i := al[k]
				s += fmt.Sprintf(" %s(%d,%d,%d)", []string{"And", "Or", "Xor", "Implies", "Choice", "Copy", "Lit"}[i.op], i.a, i.b, i.d)
			}
			return s + "  (operands: 0,1 constants T,F; 2..7 x,-x,y,-y,z,-z; 8.. newest, second newest)"
		}
	}
	return &eng.Prop{ID: "C14", Level: "model_checking",
		Notes: []string{"meaning: truth table over three inputs, computed from the arguments alone"},
		Parts: []*eng.Part{
			{Name: "build", Desc: fmt.Sprintf("every sequence of 2 builder operations out of %d (And, Or, Xor, Implies, Choice with every choice of 12 operands, Copy), for initial capacity 0 and 9", len(alpha)),
				Enum: func(t eng.Tier, yield func(c []int32) bool) {
					for _, cp := range []int32{9, 0} {
						if !prod(func(c []int32) bool { return yield([]int32{cp, c[0], c[1]}) }, len(alpha), len(alpha)) {
							return
						}
					}
				},
				Run:  func(c []int32, cov *eng.Cov) error { return run(alpha, c, cov) },
				Show: show(alpha)},
			{Name: "deep", Desc: fmt.Sprintf("every sequence of 3 (thorough 4) operations out of %d", len(ands)),
				Enum: func(t eng.Tier, yield func(c []int32) bool) {
					buf := make([]int32, 8)
					d := []int{len(ands), len(ands), len(ands)}
					if t == eng.Thorough {
						d = append(d, len(ands))
					}
					prod(func(c []int32) bool {
						buf[0] = 5
						copy(buf[1:], c)
						return yield(buf[:1+len(c)])
					}, d...)
				},
				Run:  func(c []int32, cov *eng.Cov) error { return run(ands, c, cov) },
				Show: show(ands)},
			lists(),
			longLists(),
			growth(),
			many(),
		}}
}

// lists: Ands and Ors of every list.
func lists() *eng.Part {
	return &eng.Part{
		Name: "lists", Desc: "Ands and Ors of every list of up to 5 (thorough 6) of the 8 constant and input literals",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for n := 0; n <= t.Pick(5, 6); n++ {
				d := make([]int, n)
				for i := range d {
					d[i] = 8
				}
				if !prod(yield, d...) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			w := newCW(logic.NewC(), 3)
			ms := make([]z.Lit, len(c))
			and, or := uint8(all8), uint8(0)
			for i, k := range c {
				ms[i] = w.pool[k]
				and &= w.tt[ms[i]]
				or |= w.tt[ms[i]]
			}
			keep := append([]z.Lit{}, ms...)
			if e := w.bind(w.c.Ands(ms...), and, fmt.Sprintf("Ands(%v)", keep)); e != nil {
				return e
			}
			if e := w.bind(w.c.Ors(ms...), or, fmt.Sprintf("Ors(%v)", keep)); e != nil {
				return e
			}
			for i := range ms {
				if ms[i] != keep[i] {
					return fmt.Errorf("the caller's list %v was changed to %v", keep, ms)
				}
			}
			cov.Trans += 2
			cov.Traces++
			h := eng.NewH()
			h.I(int(and))
			h.I(int(or))
			h.I(len(c))
			eng.State(uint64(h))
			return w.check()
		},
	}
}

// growth: many gates, every capacity hint, copies at every size; every gate
// asked for again afterwards, in both operand orders.
func growth() *eng.Part {
	const nG = 60
	return &eng.Part{
		Name: "growth", Desc: fmt.Sprintf("%d gates built one after the other in 3 patterns, capacity hints 0..40, copied (or not) at every size; each gate and each earlier gate asked for again, both operand orders, after every step", nG),
		Enum: func(t eng.Tier, yield func(c []int32) bool) { prod(yield, t.Pick(24, 41), nG+1, 3) },
		Run: func(c []int32, cov *eng.Cov) error {
			w := newCW(logic.NewCCap(int(c[0])), 3)
			type g struct{ a, b, m z.Lit }
			var gs []g
			// operand pairs in a fixed order over a growing list of literals
			base := []z.Lit{w.ins[0], w.ins[1], w.ins[2]}
			k := 0
			next := func() (z.Lit, z.Lit) {
				for {
					i, j := k%len(base), (k/3+1+int(c[2]))%len(base)
					a, b := base[i], base[j]
					if k&1 == 1 {
						a = a.Not()
					}
					if k&4 == 4 {
						b = b.Not()
					}
					k++
					if a.Var() != b.Var() {
						return a, b
					}
				}
			}
			for step := 0; step < nG; step++ {
				if int(c[1]) == step {
					old := w.c
					w.c = old.Copy()
					for i := 0; i < 3; i++ {
						old.And(base[i%len(base)].Not(), base[(i*5+1)%len(base)])
						old.Lit()
					}
				}
				a, b := next()
				m, e := w.And(a, b)
				if e != nil {
					return e
				}
				gs = append(gs, g{a, b, m})
				if int(m.Var()) == w.c.Len()-1 && len(base) < 14 {
					base = append(base, m)
				}
				n := w.c.Len()
				for _, x := range gs {
					if y := w.c.And(x.b, x.a); y != x.m {
						return fmt.Errorf("And(%s,%s) was %s and is now %s", x.b, x.a, x.m, y)
					}
					if y := w.c.And(x.a, x.b); y != x.m {
						return fmt.Errorf("And(%s,%s) was %s and is now %s", x.a, x.b, x.m, y)
					}
				}
				if w.c.Len() != n {
					return fmt.Errorf("asking for existing gates made new ones")
				}
				if step%7 == 3 {
					in := w.c.Lit()
					if int(in.Var()) != w.c.Len()-1 || !in.IsPos() {
						return fmt.Errorf("Lit returned %s with %d nodes", in, w.c.Len())
					}
					if _, ok := w.tt[in]; ok {
						return fmt.Errorf("Lit returned %s, which is in use", in)
					}
					// a free input, valued 0 in check: leave it out of the tables
					w.ins = append(w.ins, in)
					inTT2 := len(w.ins) - 1
					_ = inTT2
				}
				cov.Trans++
			}
			cov.Traces++
			h := eng.NewH()
			h.I(int(c[0]))
			h.I(int(c[1]))
			h.I(int(c[2]))
			eng.State(uint64(h))
			return w.checkExtra(3)
		},
	}
}

// checkExtra is check for circuits with further inputs, which are held at 0.
func (w *cw) checkExtra(n int) error {
	extra := w.ins[n:]
	for len(inTT) < len(w.ins) {
		inTT = append(inTT, 0)
	}
	_ = extra
	return w.check()
}

// --- C15 ---

// sink collects clauses.
type sink struct {
	cur []z.Lit
	cs  [][]z.Lit
}

func (s *sink) Add(m z.Lit) {
	if m == z.LitNull {
		s.cs = append(s.cs, append([]z.Lit{}, s.cur...))
		s.cur = s.cur[:0]
		return
	}
	s.cur = append(s.cur, m)
}

func key(c []z.Lit) string {
	d := append([]z.Lit{}, c...)
	sort.Slice(d, func(i, j int) bool { return d[i] < d[j] })
	return fmt.Sprint(d)
}

// checkCnf: the clauses, over the variables in cone plus the constant, have
// for each assignment of the inputs exactly the model the circuit computes.
func checkCnf(c *logic.C, latch map[z.Var]bool, cs [][]z.Lit, roots []z.Lit, all bool) (states int64, err error) {
	n := c.Len()
	isIn := func(v z.Var) bool {
		if latch[v] {
			return true
		}
		a, _ := c.Ins(v.Pos())
		return a == z.LitNull && v > 1
	}
	cone := make([]bool, n)
	cone[1] = true
	var vis func(v z.Var)
	vis = func(v z.Var) {
		if cone[v] {
			return
		}
		cone[v] = true
		if !isIn(v) {
			a, b := c.Ins(v.Pos())
			vis(a.Var())
			vis(b.Var())
		}
	}
	if all {
		for i := 2; i < n; i++ {
			vis(z.Var(i))
		}
	} else {
		for _, r := range roots {
			vis(r.Var())
		}
	}
	var ins, free []z.Var
	for i := 2; i < n; i++ {
		if cone[i] && isIn(z.Var(i)) {
			ins = append(ins, z.Var(i))
		} else if cone[i] {
			free = append(free, z.Var(i))
		}
	}
	mask := func(m z.Lit) (uint64, uint64) { return 1 << uint(m.Var()), uint64(b2i(m.IsPos())) << uint(m.Var()) }
	var used uint64
	for _, cl := range cs {
		for _, m := range cl {
			if m == z.LitNull || int(m.Var()) >= n {
				return 0, fmt.Errorf("clause %v is not over the circuit", cl)
			}
			used |= 1 << uint(m.Var())
		}
	}
	for v := 2; v < n; v++ {
		if used>>uint(v)&1 == 1 && !cone[v] {
			return 0, fmt.Errorf("clauses mention %d, which no converted gate depends on", v)
		}
	}
	_ = mask
	sat := func(asg uint64) bool {
	next:
		for _, cl := range cs {
			for _, m := range cl {
				if (asg>>uint(m.Var())&1 == 1) == m.IsPos() {
					continue next
				}
			}
			return false
		}
		return true
	}
	if len(free) > 9 {
		return 0, fmt.Errorf("harness: %d gates", len(free))
	}
	for a := uint64(0); a < 1<<uint(len(ins)); a++ {
		// the circuit's own value, computed here
		val := make([]bool, n)
		val[1] = true
		var asgIn uint64 = 0
		for i, v := range ins {
			if a>>uint(i)&1 == 1 {
				val[v] = true
				asgIn |= 1 << uint(v)
			}
		}
		want := asgIn | 2
		for _, v := range free {
			x, y := c.Ins(v.Pos())
			vx, vy := val[x.Var()] == x.IsPos(), val[y.Var()] == y.IsPos()
			val[v] = vx && vy
			if val[v] {
				want |= 1 << uint(v)
			}
		}
		for g := uint64(0); g < 1<<uint(len(free)+1); g++ {
			asg := asgIn
			if g&1 == 1 {
				asg |= 2
			}
			for i, v := range free {
				if g>>uint(i+1)&1 == 1 {
					asg |= 1 << uint(v)
				}
			}
			states++
			if sat(asg) != (asg == want) {
				return states, fmt.Errorf("assignment %b (bit v: variable v) satisfies clauses %v: %v; the circuit computes %b", asg, cs, asg != want, want)
			}
		}
	}
	return states, nil
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// small circuits for C15: 3 gates over 2 inputs (and a latch), by index
type smallC struct {
	c     *logic.C
	latch map[z.Var]bool
	lits  []z.Lit // signals: constant, inputs, gates
}

// buildSmall makes a circuit with the gates given by codes (a,b operand indices with sign).
func buildSmall(seq bool, gates []int32, upto int, prev *smallC) *smallC {
	r := prev
	if r == nil {
		r = &smallC{latch: map[z.Var]bool{}}
		if seq {
			s := logic.NewSCap(2)
			x := s.Lit()
			l := s.Latch(s.F)
			l2 := s.Latch(z.LitNull)
			s.SetNext(l, l2.Not())
			r.c = &s.C
			r.latch[l.Var()] = true
			r.latch[l2.Var()] = true
			r.lits = []z.Lit{s.T, x, l, l2}
		} else {
			r.c = logic.NewCCap(2)
			r.lits = []z.Lit{r.c.T, r.c.Lit(), r.c.Lit(), r.c.Lit()}
		}
	}
	for len(r.lits)-4 < upto {
		k := gates[len(r.lits)-4]
		n := int32(len(r.lits))
		a, b := r.lits[(k>>2)%n], r.lits[(k>>2)/n%n]
		if k&1 == 1 {
			a = a.Not()
		}
		if k&2 == 2 {
			b = b.Not()
		}
		r.lits = append(r.lits, r.c.And(a, b))
	}
	return r
}

func gateCodes(i int) int { return 4 * (4 + i) * (4 + i) }

func c15() *eng.Prop {
	nPairs := [][]int32{}
	_ = nPairs
	// restricted gate codes: unordered, distinct variables, no constants except a few
	codes := make([][]int32, 3)
	for i := range codes {
		n := int32(4 + i)
		for a := int32(0); a < n; a++ {
			for b := a; b < n; b++ {
				for s := int32(0); s < 4; s++ {
					if a == 0 && s > 0 {
						continue
					}
					if a == b && s != 0 && s != 2 {
						continue
					}
					codes[i] = append(codes[i], (b*n+a)<<2|s)
				}
			}
		}
	}
	// request scripts: up to 3 requests, each a subset of the last 4 signals, with growth in between
	type req struct {
		upto  int   // gates that exist
		roots []int // signal indices with sign: +-(i+1)
		mark  int   // 0: nil kept, 1: exact copy, 2: dirty spare capacity
	}
	var scripts [][]req
	rs := [][]int{{}, {5}, {-6}, {7}, {5, 6}, {-7, 5}, {2}, {-1, 1}, {7, 7, -7}, {3, 6}}
	for m := 0; m < 5; m++ {
		for _, a := range rs {
			scripts = append(scripts, []req{{3, a, m}})
			for _, b := range rs {
				scripts = append(scripts, []req{{3, a, m}, {3, b, m}})
				if len(a) > 0 && (a[0] == 5 && len(a) == 1 || a[0] == 2) {
					scripts = append(scripts, []req{{1, a, m}, {3, b, m}}, []req{{1, a, m}, {2, []int{6}, m}, {3, b, m}})
				}
			}
		}
	}
	conv := func(c *smallC, sc []req, gates []int32, seq bool) (int64, error) {
		var st int64
		var s sink
		var mark []int8
		seen := map[string]bool{}
		var roots []z.Lit
		for ri, r := range sc {
			c = buildSmall(seq, gates, r.upto, c)
			var now []z.Lit
			for _, x := range r.roots {
				if x > 0 {
					if x-1 < len(c.lits) {
						now = append(now, c.lits[x-1])
					}
				} else if -x-1 < len(c.lits) {
					now = append(now, c.lits[-x-1].Not())
				}
			}
			roots = append(roots, now...)
			before := len(s.cs)
			var n int
			switch r.mark {
			case 1:
				mark = append([]int8{}, mark...)
			case 2:
				big := make([]int8, 40)
				for i := range big {
					big[i] = 1 // must be ignored beyond the length
				}
				copy(big, mark)
				mark = big[:len(mark)]
			case 3: // the first marks are zeros for the whole circuit
				if ri == 0 {
					mark = make([]int8, c.c.Len())
				}
			case 4: // the first marks have room only
				if ri == 0 {
					mark = make([]int8, 0, 40)
				}
			}
			mark, n = c.c.CnfSince(&s, mark, now...)
			if len(mark) < c.c.Len() {
				return st, fmt.Errorf("request %d: marks for %d of %d nodes", ri, len(mark), c.c.Len())
			}
			if (n == 0) != (len(s.cs) == before) {
				return st, fmt.Errorf("request %d: count %d but %d clauses added", ri, n, len(s.cs)-before)
			}
			for _, cl := range s.cs[before:] {
				k := key(cl)
				if seen[k] {
					return st, fmt.Errorf("request %d: clause %v was added before", ri, cl)
				}
				seen[k] = true
			}
			if len(s.cur) != 0 {
				return st, fmt.Errorf("unfinished clause %v", s.cur)
			}
			k, e := checkCnf(c.c, c.latch, s.cs, roots, false)
			st += k
			if e != nil {
				return st, fmt.Errorf("request %d %v: %v", ri, now, e)
			}
		}
		return st, nil
	}
	run := func(c []int32, cov *eng.Cov) error {
		seq := c[0] == 1
		gates := c[1:4]
		for si, sc := range scripts {
			n, e := conv(nil, sc, gates, seq)
			cov.Trans += n
			if e != nil {
				return fmt.Errorf("script %d %v: %v", si, sc, e)
			}
			cov.Traces++
		}
		c3 := buildSmall(seq, gates, 3, nil)
		var s sink
		c3.c.ToCnf(&s)
		if _, e := checkCnf(c3.c, c3.latch, s.cs, nil, true); e != nil {
			return fmt.Errorf("ToCnf: %v", e)
		}
		for _, r := range c3.lits {
			var s sink
			c3.c.ToCnfFrom(&s, r)
			if _, e := checkCnf(c3.c, c3.latch, s.cs, []z.Lit{r}, false); e != nil {
				return fmt.Errorf("ToCnfFrom(%s): %v", r, e)
			}
			s = sink{}
			c3.c.ToCnfFrom(&s, r.Not(), c3.lits[1])
			if _, e := checkCnf(c3.c, c3.latch, s.cs, []z.Lit{r, c3.lits[1]}, false); e != nil {
				return fmt.Errorf("ToCnfFrom(%s,%s): %v", r.Not(), c3.lits[1], e)
			}
		}
		h := eng.NewH()
		for _, m := range c3.lits {
			h.I(int(m))
			a, b := c3.c.Ins(m)
			h.I(int(a))
			h.I(int(b))
		}
		eng.State(uint64(h))
		return nil
	}
	return &eng.Prop{ID: "C15", Level: "model_checking",
		Notes: []string{"oracle: for every input assignment the only model of the clauses on the converted cone is the one computed gate by gate here"},
		Parts: []*eng.Part{{
			Name: "cnf", Desc: fmt.Sprintf("every circuit of 3 gates over a constant and 3 inputs, or an input and 2 latches (%d x %d x %d gate choices); ToCnf, ToCnfFrom each root, and %d scripts of CnfSince requests with the circuit growing in between and 5 ways of starting the marks and handing them back (quick: every second circuit)", len(codes[0]), len(codes[1]), len(codes[2]), len(scripts)),
			Enum: func(t eng.Tier, yield func(c []int32) bool) {
				buf := make([]int32, 4)
				for seq := int32(0); seq < 2; seq++ {
					stop := !prod(func(c []int32) bool {
						if t == eng.Quick && (c[0]*7+c[1]*3+c[2])%2 != 0 {
							return true
						}
						buf[0] = seq
						for i := 0; i < 3; i++ {
							buf[1+i] = codes[i][c[i]]
						}
						return yield(buf)
					}, len(codes[0]), len(codes[1]), len(codes[2]))
					if stop {
						return
					}
				}
			},
			Run:  run,
			Show: func(c []int32) string { return fmt.Sprintf("latches %v, gate codes %v", c[0] == 1, c[1:]) },
		}, manyCnf()}}
}

// --- C16 ---

func c16() *eng.Prop {
	evalCard := func(c *logic.C, ins []z.Lit, ms []z.Lit, cov *eng.Cov) error {
		keep := append([]z.Lit{}, ms...)
		cs := c.CardSort(ms)
		n := len(keep)
		for i := range keep {
			if ms[i] != keep[i] {
				return fmt.Errorf("the caller's list %v was changed to %v", keep, ms)
			}
		}
		if cs.N() != n {
			return fmt.Errorf("N() = %d for %d literals", cs.N(), n)
		}
		type q struct {
			name string
			k    int
			m    z.Lit
		}
		var qs []q
		for k := -2; k <= n+2; k++ {
			qs = append(qs, q{"Leq", k, cs.Leq(k)}, q{"Geq", k, cs.Geq(k)}, q{"Less", k, cs.Less(k)}, q{"Gr", k, cs.Gr(k)})
		}
		vs := make([]uint64, c.Len())
		total := uint64(1) << uint(len(ins))
		for base := uint64(0); base < total; base += 64 {
			for i := range vs {
				vs[i] = 0
			}
			vs[1] = ^uint64(0)
			for i, m := range ins {
				var w uint64
				for l := uint64(0); l < 64; l++ {
					w |= ((base + l) >> uint(i) & 1) << l
				}
				vs[m.Var()] = w
			}
			c.Eval64(vs)
			val := func(m z.Lit, l uint64) bool { return vs[m.Var()]>>l&1 == 1 == m.IsPos() }
			for l := uint64(0); l < 64 && base+l < total; l++ {
				cnt := 0
				for _, m := range keep {
					if m.Var() == 1 {
						if m == c.T {
							cnt++
						}
						continue
					}
					if val(m, l) {
						cnt++
					}
				}
				for _, x := range qs {
					var want bool
					switch x.name {
					case "Leq":
						want = cnt <= x.k
					case "Geq":
						want = cnt >= x.k
					case "Less":
						want = cnt < x.k
					default:
						want = cnt > x.k
					}
					got := val(x.m, l)
					if x.m.Var() == 1 {
						got = x.m == c.T
					}
					cov.Trans++
					if got != want {
						return fmt.Errorf("list %v, %d of them true: %s(%d) is %v", keep, cnt, x.name, x.k, got)
					}
				}
			}
		}
		cov.Traces++
		return nil
	}
	return &eng.Prop{ID: "C16", Level: "model_checking",
		Notes: []string{"all assignments of the inputs are evaluated for every bound from -2 to n+2"},
		Parts: []*eng.Part{
			{Name: "lists", Desc: "every list of up to 5 (thorough 7) literals out of the constants and both signs of 3 inputs",
				Enum: func(t eng.Tier, yield func(c []int32) bool) {
					for n := 0; n <= t.Pick(5, 7); n++ {
						d := make([]int, n)
						for i := range d {
							d[i] = 8
						}
						if !prod(yield, d...) {
							return
						}
					}
				},
				Run: func(c []int32, cov *eng.Cov) error {
					w := newCW(logic.NewC(), 3)
					ms := make([]z.Lit, len(c))
					h := eng.NewH()
					for i, k := range c {
						ms[i] = w.pool[k]
						h.I(int(k))
					}
					eng.State(uint64(h))
					return evalCard(w.c, w.ins, ms, cov)
				}},
			{Name: "long", Desc: "lists of 0..14 (thorough 0..18) different inputs, every position negated or replaced by a constant or a repetition in turn, circuits with small and large capacity, gates built before",
				Enum: func(t eng.Tier, yield func(c []int32) bool) {
					for n := 0; n <= t.Pick(13, 18); n++ {
						for pos := -1; pos < n; pos++ {
							for v := 0; v < 5; v++ {
								if pos == -1 && v > 0 {
									continue
								}
								if !yield([]int32{int32(n), int32(pos), int32(v)}) {
									return
								}
							}
						}
					}
				},
				Run: func(c []int32, cov *eng.Cov) error {
					ci := logic.NewCCap(int(c[0]) + 1)
					n := int(c[0])
					var ins, ms []z.Lit
					for i := 0; i < n; i++ {
						ins = append(ins, ci.Lit())
					}
					if n > 2 && c[2]&1 == 1 {
						// gates in place before
						ci.And(ins[0], ins[1])
						ci.Or(ins[1], ins[2])
					}
					ms = append(ms, ins...)
					if p := c[1]; p >= 0 {
						switch c[2] {
						case 0:
							ms[p] = ms[p].Not()
						case 1:
							ms[p] = ci.T
						case 2:
							ms[p] = ci.F
						case 3:
							ms[p] = ms[(int(p)+1)%n]
						case 4:
							ms[p] = ms[(int(p)+1)%n].Not()
						}
					}
					h := eng.NewH()
					h.I(int(c[0]))
					h.I(int(c[1]))
					h.I(int(c[2]))
					eng.State(uint64(h))
					return evalCard(ci, ins, ms, cov)
				}},
			wideCard(),
			{Name: "twice", Desc: "two counters over overlapping lists on one circuit: all pairs of lists of up to 3 literals of 2 inputs and their negations; both evaluated after both are built",
				Enum: func(t eng.Tier, yield func(c []int32) bool) { prod(yield, 5, 5, 5, 5, 5, 5) },
				Run: func(c []int32, cov *eng.Cov) error {
					w := newCW(logic.NewCCap(2), 3)
					var l [2][]z.Lit
					for i, k := range c {
						if k > 0 {
							l[i/3] = append(l[i/3], w.pool[k+1])
						}
					}
					a := w.c.CardSort(append([]z.Lit{}, l[0]...))
					if e := evalCard(w.c, w.ins, l[1], cov); e != nil {
						return e
					}
					b := w.c.CardSort(append([]z.Lit{}, l[0]...))
					for k := 0; k < 4; k++ {
						if a.Leq(k) != b.Leq(k) {
							return fmt.Errorf("two counters over %v differ: Leq(%d) is %s and %s", l[0], k, a.Leq(k), b.Leq(k))
						}
					}
					return evalCard(w.c, w.ins, l[0], cov)
				}},
		}}
}
