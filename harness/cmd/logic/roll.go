package main

import (
	"fmt"

	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/z"

	"vh/eng"
)

// sysSpec is a small sequential circuit given by numbers.
type sysSpec struct {
	inits []int32 // per latch: 0 F, 1 T, 2 X
	gates [][2]int32
	nexts []int32
	nIn   int
}

type sys struct {
	s       *logic.S
	ins     []z.Lit
	latches []z.Lit
	sig     []z.Lit // every signal: T, inputs, latches, gates
	def     [][2]z.Lit
	nexts   []z.Lit
	inits   []z.Lit
}

// signal index with sign: 2*i or 2*i+1
func (x *sys) lit(k int32) z.Lit {
	m := x.sig[k>>1]
	if k&1 == 1 {
		return m.Not()
	}
	return m
}

func build(sp sysSpec, cap int) *sys {
	s := logic.NewSCap(cap)
	x := &sys{s: s, sig: []z.Lit{s.T}}
	for i := 0; i < sp.nIn; i++ {
		m := s.Lit()
		x.ins = append(x.ins, m)
		x.sig = append(x.sig, m)
	}
	for _, k := range sp.inits {
		ini := []z.Lit{s.F, s.T, z.LitNull}[k]
		m := s.Latch(ini)
		x.latches = append(x.latches, m)
		x.sig = append(x.sig, m)
		x.inits = append(x.inits, ini)
	}
	x.def = make([][2]z.Lit, len(x.sig))
	for _, g := range sp.gates {
		a, b := x.lit(g[0]), x.lit(g[1])
		x.sig = append(x.sig, s.And(a, b))
		x.def = append(x.def, [2]z.Lit{a, b})
	}
	for i, k := range sp.nexts {
		n := x.lit(k)
		s.SetNext(x.latches[i], n)
		x.nexts = append(x.nexts, n)
	}
	return x
}

// sim computes every signal at every step as 64-lane words, lane = assignment
// of (inputs per step, unknown initial values); bits is their number.
func (x *sys) sim(steps int, inVal func(in, step int) uint64, xVal func(latch int) uint64) [][]uint64 {
	n := len(x.sig)
	out := make([][]uint64, steps)
	cur := map[z.Var]uint64{}
	lv := make([]uint64, len(x.latches))
	for i, ini := range x.inits {
		switch ini {
		case x.s.T:
			lv[i] = ^uint64(0)
		case x.s.F:
		default:
			lv[i] = xVal(i)
		}
	}
	val := func(m z.Lit) uint64 {
		v := cur[m.Var()]
		if !m.IsPos() {
			return ^v
		}
		return v
	}
	for t := 0; t < steps; t++ {
		cur = map[z.Var]uint64{x.s.T.Var(): ^uint64(0)}
		for i, m := range x.ins {
			cur[m.Var()] = inVal(i, t)
		}
		for i, m := range x.latches {
			cur[m.Var()] = lv[i]
		}
		row := make([]uint64, n)
		k := 1 + len(x.ins) + len(x.latches)
		for i := 0; i < k; i++ {
			row[i] = val(x.sig[i])
		}
		for i := k; i < n; i++ {
			row[i] = val(x.def[i][0]) & val(x.def[i][1])
			// the literal may be an existing signal: keep the meaning by variable
			m := x.sig[i]
			w := row[i]
			if !m.IsPos() {
				w = ^w
			}
			cur[m.Var()] = w
		}
		out[t] = row
		for i, nx := range x.nexts {
			lv[i] = val(nx)
		}
	}
	return out
}

var lanes = []uint64{0xaaaaaaaaaaaaaaaa, 0xcccccccccccccccc, 0xf0f0f0f0f0f0f0f0, 0xff00ff00ff00ff00, 0xffff0000ffff0000, 0xffffffff00000000}

// checkRoll compares an unrolling with simulation for all assignments.
func checkRoll(x *sys, u *logic.Roll, asked []struct {
	k int32
	d int
	m z.Lit
}, steps int, cov *eng.Cov) error {
	// input literals per step, all distinct
	used := map[z.Var]string{}
	inL := make([][]z.Lit, len(x.ins))
	for i, m := range x.ins {
		for t := 0; t < steps; t++ {
			l := u.At(m, t)
			if o, ok := used[l.Var()]; ok {
				return fmt.Errorf("input %d at step %d is %s, as is %s", i, t, l, o)
			}
			used[l.Var()] = fmt.Sprintf("input %d at step %d", i, t)
			if a, b := u.C.Ins(l); a != z.LitNull || b != z.LitNull || l.Var() <= 1 {
				return fmt.Errorf("input %d at step %d is %s, not an input of the unrolling", i, t, l)
			}
			inL[i] = append(inL[i], l)
		}
	}
	xL := map[int]z.Lit{}
	for i, ini := range x.inits {
		if ini == z.LitNull {
			l := u.At(x.latches[i], 0)
			if o, ok := used[l.Var()]; ok {
				return fmt.Errorf("unknown initial value of latch %d is %s, as is %s", i, l, o)
			}
			used[l.Var()] = fmt.Sprintf("initial value of latch %d", i)
			xL[i] = l
		}
	}
	nb := len(used)
	words := 1
	if nb > 6 {
		words = 1 << uint(nb-6)
	}
	if nb > 16 {
		words = 4 // of a fixed table
	}
	laneOf := func(bit, w int) uint64 {
		if nb > 16 {
			switch w {
			case 0: // one at a time
				return 1 << uint(bit%64)
			case 1:
				return ^(uint64(1) << uint(bit%64))
			}
			x := uint64(bit+1)*0x9e3779b97f4a7c15 + uint64(w)
			x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
			x = (x ^ x>>27) * 0x94d049bb133111eb
			return x ^ x>>31
		}
		if bit < 6 {
			return lanes[bit]
		}
		if w>>uint(bit-6)&1 == 1 {
			return ^uint64(0)
		}
		return 0
	}
	for w := 0; w < words; w++ {
		vs := make([]uint64, u.C.Len())
		vs[1] = ^uint64(0)
		put := func(l z.Lit, v uint64) {
			if !l.IsPos() {
				v = ^v
			}
			vs[l.Var()] = v
		}
		inVal := func(i, t int) uint64 { return laneOf(t*len(x.ins)+i, w) }
		xVal := func(i int) uint64 {
			b := steps * len(x.ins)
			for j := 0; j < i; j++ {
				if _, ok := xL[j]; ok {
					b++
				}
			}
			return laneOf(b, w)
		}
		for i := range x.ins {
			for t := 0; t < steps; t++ {
				put(inL[i][t], inVal(i, t))
			}
		}
		for i, l := range xL {
			put(l, xVal(i))
		}
		// evaluate the unrolled circuit here
		for i := 2; i < len(vs); i++ {
			a, b := u.C.Ins(u.C.At(i))
			if a == z.LitNull {
				if _, ok := used[z.Var(i)]; !ok {
					return fmt.Errorf("the unrolling has an input %d which is neither an input at a step nor an unknown initial value", i)
				}
				continue
			}
			va, vb := vs[a.Var()], vs[b.Var()]
			if !a.IsPos() {
				va = ^va
			}
			if !b.IsPos() {
				vb = ^vb
			}
			vs[i] = va & vb
		}
		ref := x.sim(steps, inVal, xVal)
		for _, q := range asked {
			want := ref[q.d][q.k>>1]
			if q.k&1 == 1 {
				want = ^want
			}
			got := vs[q.m.Var()]
			if !q.m.IsPos() {
				got = ^got
			}
			cov.Trans++
			if got != want {
				return fmt.Errorf("signal %d (%s) at step %d is %s, which is %016x over the assignments; simulation gives %016x", q.k, x.lit(q.k), q.d, q.m, got, want)
			}
		}
	}
	return nil
}

type ask = struct {
	k int32
	d int
	m z.Lit
}

func runRoll(sp sysSpec, reqs [][2]int32, steps int, copyFirst bool, cov *eng.Cov) error {
	x := build(sp, 3)
	if copyFirst {
		orig := x.s
		cp := x.s.Copy()
		x.s = cp
		// the original changes afterwards
		for _, l := range x.latches {
			orig.SetNext(l, orig.T)
			orig.SetInit(l, orig.T)
		}
		orig.And(orig.Lit(), x.sig[1])
		for i, l := range x.latches {
			if cp.Next(l) != x.nexts[i] || cp.Init(l) != x.inits[i] {
				return fmt.Errorf("changing the original changed latch %d of the copy", i)
			}
		}
		if len(cp.Latches) != len(x.latches) {
			return fmt.Errorf("the copy has latches %v", cp.Latches)
		}
	}
	u := logic.NewRoll(x.s)
	var asked []ask
	for _, r := range reqs {
		m := u.At(x.lit(r[0]), int(r[1]))
		asked = append(asked, ask{r[0], int(r[1]), m})
	}
	// everything again, and everything else
	for d := steps - 1; d >= 0; d-- {
		for k := int32(0); k < int32(2*len(x.sig)); k++ {
			asked = append(asked, ask{k, d, u.At(x.lit(k), d)})
		}
	}
	for _, q := range asked {
		if m := u.At(x.lit(q.k), q.d); m != q.m {
			return fmt.Errorf("signal %d at step %d was %s and is now %s", q.k, q.d, q.m, m)
		}
	}
	for k := range x.sig {
		if n := u.Len(x.sig[k]); n < steps {
			return fmt.Errorf("Len of signal %d is %d after asking for step %d", k, n, steps-1)
		}
	}
	if u.MaxLen() < steps {
		return fmt.Errorf("MaxLen is %d after asking for step %d", u.MaxLen(), steps-1)
	}
	cov.Traces++
	return checkRoll(x, u, asked, steps, cov)
}

func c17() *eng.Prop {
	const steps = 4
	// one input, two latches, one or two gates
	// signals: 0 T, 1 x, 2 L1, 3 L2, 4 g1, 5 g2
	var g1 [][2]int32
	for a := int32(2); a < 8; a++ {
		for b := a + 1; b < 8; b++ {
			if a>>1 != b>>1 {
				g1 = append(g1, [2]int32{a, b})
			}
		}
	}
	var nx []int32
	for k := int32(0); k < 10; k++ {
		nx = append(nx, k)
	}
	spec := func(c []int32) sysSpec {
		return sysSpec{nIn: 1, inits: []int32{c[0] % 3, c[0] / 3}, gates: [][2]int32{g1[c[1]]}, nexts: []int32{nx[c[2]], nx[c[3]]}}
	}
	spec2 := func(c []int32) sysSpec {
		// second gate over g1 and another signal
		return sysSpec{nIn: 1, inits: []int32{c[0] % 3, c[0] / 3}, gates: [][2]int32{g1[c[1]], {8 + c[4]&1, 2 + c[4]>>1}}, nexts: []int32{nx[c[2]] & 15, 10 + c[3]}}
	}
	req := func(k int32) [2]int32 { return [2]int32{(k % 5) * 2, k / 5} } // 5 signals x 4 steps
	st := func(c []int32) {
		h := eng.NewH()
		for _, x := range c {
			h.I(int(x))
		}
		eng.State(uint64(h))
	}
	// three latches in a ring with one gate, all X or mixed
	return &eng.Prop{ID: "C17", Level: "model_checking",
		Notes: []string{"simulation and evaluation of the unrolled circuit are done by the harness, for all values of inputs at 4 steps and of unknown initial values"},
		Parts: []*eng.Part{
			{Name: "circuits", Desc: fmt.Sprintf("every circuit with 1 input, 2 latches (9 resets), 1 gate (%d choices) and every pair of next-state literals out of 10 (constants, input, latches, gate, both signs); first request every (signal, step) out of 5 x 4, then everything from the last step down; 4 steps; with and without a copy", len(g1)),
				Enum: func(t eng.Tier, yield func(c []int32) bool) {
					prod(func(c []int32) bool {
						return yield(c)
					}, 9, len(g1), 10, 10, 20, 2)
				},
				Run: func(c []int32, cov *eng.Cov) error {
					st(c)
					return runRoll(spec(c), [][2]int32{req(c[4])}, steps, c[5] == 1, cov)
				},
				Show: func(c []int32) string {
					return fmt.Sprintf("%+v first request %v copy %v", spec(c), req(c[4]), c[5] == 1)
				}},
			{Name: "orders", Desc: "circuits as before but 8 of the resets and gates; every ordered pair of requests out of 5 signals x 4 steps (quick: half of the combinations)",
				Enum: func(t eng.Tier, yield func(c []int32) bool) {
					prod(func(c []int32) bool {
						if t == eng.Quick && (c[0]+c[1]+c[2]+c[3]+c[4]+c[5])%2 != 0 {
							return true
						}
						return yield([]int32{(c[0] * 4) % 9, c[1] * 3 % int32(len(g1)), c[2], c[3], c[4], c[5]})
					}, 3, 3, 10, 10, 20, 20)
				},
				Run: func(c []int32, cov *eng.Cov) error {
					st(c)
					return runRoll(spec(c), [][2]int32{req(c[4]), req(c[5])}, steps, false, cov)
				},
				Show: func(c []int32) string {
					return fmt.Sprintf("%+v requests %v %v", spec(c), req(c[4]), req(c[5]))
				}},
			{Name: "twogates", Desc: "2 gates, the second over the first and any signal, next states over both; all 20 first requests",
				Enum: func(t eng.Tier, yield func(c []int32) bool) {
					prod(func(c []int32) bool {
						return yield(c)
					}, 9, len(g1), 10, 2, 12, 20)
				},
				Run: func(c []int32, cov *eng.Cov) error {
					st(c)
					return runRoll(spec2(c), [][2]int32{req(c[5])}, steps, c[5]&1 == 1, cov)
				},
				Show: func(c []int32) string { return fmt.Sprintf("%+v request %v", spec2(c), req(c[5])) }},
			{Name: "far", Desc: "circuits as in the first part, asked for step 40 or 70 of every signal first (thorough: each of the steps 7..130 that are next to a power of two), then for every step down; 256 assignments fixed beforehand",
				Enum: func(t eng.Tier, yield func(c []int32) bool) {
					far := []int32{40, 70}
					if t == eng.Thorough {
						far = []int32{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130}
					}
					prod(func(c []int32) bool {
						c[5] = far[c[5]]
						return yield(c)
					}, 9, len(g1), len(nx), len(nx), 5, len(far))
				},
				Run: func(c []int32, cov *eng.Cov) error {
					st(c)
					return runRoll(spec(c), [][2]int32{{2 * c[4], c[5]}}, int(c[5])+1, (c[2]+c[3])&1 == 1, cov)
				}},
			{Name: "rings", Desc: "3 latches and an input, every next-state function out of {latch 0..2, its negation, input} per latch, resets all 27, first request every latch at every step",
				Enum: func(t eng.Tier, yield func(c []int32) bool) { prod(yield, 27, 7, 7, 7, 3, 4) },
				Run: func(c []int32, cov *eng.Cov) error {
					st(c)
					n := func(k int32) int32 { return 2 + k } // x, L..; 2..8
					sp := sysSpec{nIn: 1, inits: []int32{c[0] % 3, c[0] / 3 % 3, c[0] / 9}, nexts: []int32{n(c[1]), n(c[2]), n(c[3])}}
					return runRoll(sp, [][2]int32{{4 + 2*c[4], c[5]}}, steps, false, cov)
				}},
		}}
}
