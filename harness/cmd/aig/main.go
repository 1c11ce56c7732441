// aig decides the AIGER properties: C18 and C19.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/logic/aiger"
	"github.com/go-air/gini/z"

	"vh/eng"
)

func main() { eng.Main(c18(), c19()) }

func prod(yield func(c []int32) bool, dims ...int) bool {
	c := make([]int32, len(dims))
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(dims) {
			return yield(c)
		}
		for x := 0; x < dims[i]; x++ {
			c[i] = int32(x)
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

// errSwapped is the known defect of the binary writer.
type errSwapped struct{ error }

func format(bin bool) string {
	if bin {
		return "binary"
	}
	return "ascii"
}

func read(r io.Reader, bin bool) (*aiger.T, error) {
	if bin {
		return aiger.ReadBinary(r)
	}
	return aiger.ReadAscii(r)
}

func write(t *aiger.T, bin bool) (string, error) {
	var b bytes.Buffer
	var e error
	if bin {
		e = t.WriteBinary(&b)
	} else {
		e = t.WriteAscii(&b)
	}
	return b.String(), e
}

func swapped(s *sig) *sig {
	r := *s
	r.init = nil
	for _, v := range s.init {
		if v != 2 {
			v = 1 - v
		}
		r.init = append(r.init, v)
	}
	return &r
}

// trip writes t, reads the text with the reference and with gini, and compares
// both with what t is supposed to be.
func trip(t *aiger.T, want *sig, cov *eng.Cov) error {
	var known error
	for _, bin := range []bool{false, true} {
		text, e := write(t, bin)
		if e != nil {
			return fmt.Errorf("writing %s: %v", format(bin), e)
		}
		cov.Trans++
		cl, ref := refParse(text, bin)
		if cl > lenient || ref == nil {
			return fmt.Errorf("the %s text written is %s:\n%q", format(bin), cl, text)
		}
		u, e := read(strings.NewReader(text), bin)
		if e != nil {
			return fmt.Errorf("reading back %s: %v\n%q", format(bin), e, text)
		}
		got, e := sigOf(u)
		if e != nil {
			return fmt.Errorf("read back from %s: %v\n%q", format(bin), e, text)
		}
		cov.Traces++
		e = want.cmp(got)
		if e == nil {
			if e2 := want.cmp(ref); e2 != nil {
				return fmt.Errorf("the %s text written, by the standard: %v\n%q", format(bin), e2, text)
			}
			continue
		}
		e = fmt.Errorf("read back from %s: %v\n%q", format(bin), e, text)
		sw := swapped(want)
		if bin && sw.cmp(got) == nil && sw.cmp(ref) == nil {
			known = errSwapped{e}
			continue
		}
		return e
	}
	return known
}

func knownSwap(c []int32, err error) string {
	var s errSwapped
	if errors.As(err, &s) {
		return "binary-latch-init"
	}
	return ""
}

// bsys is a system under construction together with its meaning.
type bsys struct {
	t    *aiger.T
	lits []z.Lit
	tts  []uint16
	s    *sig
	desc []string
}

func newB(viaMake bool) *bsys {
	b := &bsys{s: &sig{names: map[string]string{}}}
	b.t = aiger.Make(4)
	b.add(b.t.S.F, 0)
	return b
}

func (b *bsys) add(m z.Lit, t uint16) {
	b.lits = append(b.lits, m, m.Not())
	b.tts = append(b.tts, t, ^t)
}

// ops: 0 input, 1..3 latch with reset 0, 1, unknown, 4+k: gate number k over
// the literals so far (k = x*(n)+y, x <= y)
func (b *bsys) op(o int32) {
	switch {
	case o == 0:
		b.desc = append(b.desc, "in")
		b.add(b.t.NewIn(), word(0, b.s.nIn))
		b.s.nIn++
	case o <= 3:
		b.desc = append(b.desc, fmt.Sprintf("latch%d", o-1))
		ini := []z.Lit{b.t.S.F, b.t.S.T, z.LitNull}[o-1]
		b.add(b.t.Latch(ini), word(1, len(b.s.init)))
		b.s.init = append(b.s.init, int(o-1))
		b.s.next = append(b.s.next, 0)
	default:
		n := int32(len(b.lits))
		x, y := (o-4)/n, (o-4)%n
		b.desc = append(b.desc, fmt.Sprintf("and(%d,%d)", x, y))
		b.add(b.t.And(b.lits[x], b.lits[y]), b.tts[x]&b.tts[y])
	}
}

func (b *bsys) setNext(i, l int) {
	b.t.SetNext(b.t.Latches[i], b.lits[l])
	b.s.next[i] = b.tts[l]
}

// root puts literal l in root list k (4: a new justice property of one)
func (b *bsys) root(k, l int) {
	m, t := b.lits[l], b.tts[l]
	switch k {
	case 0:
		b.t.SetOutput(m)
	case 1:
		b.t.Bad = append(b.t.Bad, m)
	case 2:
		b.t.Constraints = append(b.t.Constraints, m)
	case 3:
		b.t.Fair = append(b.t.Fair, m)
	case 4:
		b.t.Justice = append(b.t.Justice, []z.Lit{m})
		b.s.just = append(b.s.just, []uint16{t})
		return
	}
	b.s.roots[k] = append(b.s.roots[k], t)
}

// enumSys enumerates the creation sequences of exactly n operations with at
// most maxIn inputs, maxL latches.
func enumSys(n, maxIn, maxL, maxG int, yield func(ops []int32, nlit, nl int) bool) bool {
	ops := make([]int32, 0, n)
	var rec func(in, l, g int) bool
	rec = func(in, l, g int) bool {
		nlit := int32(2 * (1 + in + l + g))
		if len(ops) == n {
			return yield(ops, int(nlit), l)
		}
		try := func(o int32, in, l, g int) bool {
			ops = append(ops, o)
			r := rec(in, l, g)
			ops = ops[:len(ops)-1]
			return r
		}
		if in < maxIn && !try(0, in+1, l, g) {
			return false
		}
		if l < maxL {
			for i := int32(1); i <= 3; i++ {
				if !try(i, in, l+1, g) {
					return false
				}
			}
		}
		if g < maxG {
			for x := int32(0); x < nlit; x++ {
				for y := x; y < nlit; y++ {
					if !try(4+x*nlit+y, in, l, g+1) {
						return false
					}
				}
			}
		}
		return true
	}
	return rec(0, 0, 0)
}

func c18() *eng.Prop {
	build := func(c []int32) *bsys {
		b := newB(true)
		n := int(c[0])
		for _, o := range c[1 : 1+n] {
			b.op(o)
		}
		r := c[1+n:]
		nl := len(b.s.init)
		for i := 0; i < nl; i++ {
			b.setNext(i, int(r[i]))
		}
		b.root(int(r[nl]), int(r[nl+1]))
		return b
	}
	systems := &eng.Part{
		Name: "systems",
		Desc: "every system built by up to 4 (thorough 5) creation steps in any order: at most 2 inputs, 2 latches (1 in the longest sequences) with any reset value, and gates over all literals so far including constants; every next-state literal for every latch, one root of each of the 5 kinds over every literal; both formats are written, read by the reference and read back",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for n := 0; n <= t.Pick(4, 5); n++ {
				maxG := 2
				maxL := 2
				if n == 4 && t == eng.Quick {
					maxL = 1
				}
				if n == 5 {
					maxL = 1
				}
				if !enumSys(n, 2, maxL, maxG, func(ops []int32, nlit, nl int) bool {
					kinds := 5
					if n >= 3 {
						kinds = 1
					}
					dims := []int{}
					for i := 0; i < nl; i++ {
						dims = append(dims, nlit)
					}
					dims = append(dims, kinds, nlit)
					return prod(func(c []int32) bool {
						d := append([]int32{int32(n)}, ops...)
						d = append(d, c...)
						if kinds == 1 { // spread the kinds
							h := 0
							for _, x := range d {
								h = h*31 + int(x)
							}
							d[len(d)-2] = int32(uint(h) % 5)
						}
						return yield(d)
					}, dims...)
				}) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			b := build(c)
			if len(b.s.init) > 0 {
				cov.Nontriv++
			}
			h := eng.NewH()
			for _, x := range c {
				h.I(int(x))
			}
			eng.State(uint64(h))
			return trip(b.t, b.s, cov)
		},
		Show: func(c []int32) string {
			b := build(c)
			return fmt.Sprintf("%s next/root %v", strings.Join(b.desc, " "), c[1+len(b.desc):])
		},
		Known: knownSwap,
	}
	// lists of roots over a fixed rich system: 2 inputs, unknown and zero latch, gates.
	rich := func() *bsys {
		b := newB(true)
		for _, o := range []int32{0, 3, 0} {
			b.op(o)
		}
		n := int32(len(b.lits))
		b.op(4 + 2*n + 5) // in0 and not latch
		n = int32(len(b.lits))
		b.op(4 + 6*n + 9) // in1 and not gate
		b.setNext(0, 8)
		return b
	}
	rootLists := func(b *bsys, c []int32) {
		// c[0..3]: list codes for the four lists, c[4]: shape of justice
		n := len(b.lits)
		put := func(k int, code int) {
			for code > 0 {
				code--
				b.root(k, code%n)
				code /= n
			}
		}
		for k := 0; k < 4; k++ {
			put(k, int(c[k]))
		}
		j := int(c[4])
		for ; j > 0; j /= 8 {
			ms := []z.Lit{}
			xs := []uint16{}
			switch j % 8 {
			case 0, 7:
			case 1:
				ms, xs = append(ms, b.lits[0]), append(xs, b.tts[0])
			default:
				for i := 0; i < j%8-1; i++ {
					l := (j + 3*i) % n
					ms, xs = append(ms, b.lits[l]), append(xs, b.tts[l])
				}
			}
			b.t.Justice = append(b.t.Justice, ms)
			b.s.just = append(b.s.just, xs)
		}
	}
	lists := &eng.Part{
		Name: "roots",
		Desc: "root lists over a fixed system with 12 literals: each of outputs, bad, constraints and fairness in turn takes every list of length up to 2 (thorough 3) while the others take one of 4 patterns; every combination of up to 3 justice properties with 0..6 literals each",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			n := 12
			mx := 1 + n + n*n
			if t == eng.Thorough {
				mx = 1 + n + n*n + n*n*n
			}
			pats := [][]int32{{0, 0, 0, 0, 0}, {1, 2, 3, 4, 2}, {20, 30, 40, 50, 77}, {2, 0, 100, 0, 9}}
			for k := 0; k < 4; k++ {
				for x := 0; x < mx; x++ {
					for _, p := range pats {
						c := append([]int32(nil), p...)
						c[k] = int32(x)
						if !yield(c) {
							return
						}
					}
				}
			}
			for j := 0; j < 512; j++ {
				for _, p := range pats {
					c := append([]int32(nil), p...)
					c[4] = int32(j)
					if !yield(c) {
						return
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			b := rich()
			rootLists(b, c)
			cov.Nontriv++
			if e := trip(b.t, b.s, cov); e != nil {
				return e
			}
			return checkCopy(b, cov)
		},
		Known: knownSwap,
	}
	strs := []string{"", "x", " a  b ", "c", "i0 foo", "\u00e9\x00\xff\t", strings.Repeat("long", 2000)}
	kinds := "ilobcjf"
	names := &eng.Part{
		Name: "names",
		Desc: "a system with 2 things of every kind; every pair of (kind, index in -1..3, one of 8 strings incl. empty, blanks, symbol-like, non-UTF-8, very long, with newline) namings: accepted exactly when the index exists and there is no newline, kept through both formats and through Copy, whatever the order",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			n := 7 * 5 * (len(strs) + 1)
			prod(yield, n, n)
		},
		Run: func(c []int32, cov *eng.Cov) error {
			b := newB(true)
			for _, o := range []int32{0, 0, 3, 3} {
				b.op(o)
			}
			for i := 0; i < 2; i++ {
				b.setNext(i, 4+2*i)
				for k := 0; k < 5; k++ {
					b.root(k, 2+2*i+k)
				}
			}
			for _, x := range c {
				k := kinds[x%7]
				i := int(x/7%5) - 1
				nm := "a\nb"
				if y := int(x / 35); y < len(strs) {
					nm = strs[y]
				}
				e := nameFns(b.t)[k].set(i, nm)
				ok := i >= 0 && i < 2 && !strings.Contains(nm, "\n")
				if ok != (e == nil) {
					return fmt.Errorf("naming %c%d %q: %v", k, i, nm, e)
				}
				if ok {
					b.s.names[fmt.Sprintf("%c%d", k, i)] = nm
				}
			}
			cov.Nontriv++
			if e := trip(b.t, b.s, cov); e != nil {
				return e
			}
			return checkCopy(b, cov)
		},
		Known: knownSwap,
	}
	makefor := &eng.Part{
		Name: "makefor",
		Desc: "every system built by up to 3 (thorough 4) creation steps on a plain sequential circuit and wrapped by MakeFor with every pair of output literals: all inputs are found in creation order, both formats round-trip, Copy is equal and independent",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for n := 0; n <= t.Pick(3, 4); n++ {
				if !enumSys(n, 2, 2, 2, func(ops []int32, nlit, nl int) bool {
					return prod(func(c []int32) bool {
						d := append([]int32{int32(n)}, ops...)
						return yield(append(d, c...))
					}, nlit, nlit)
				}) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			n := int(c[0])
			b := newB(false)
			for _, o := range c[1 : 1+n] {
				b.op(o)
			}
			for i := range b.s.init {
				b.setNext(i, (int(c[n])+3*i)%len(b.lits))
			}
			x, y := int(c[1+n]), int(c[2+n])
			b.t = aiger.MakeFor(b.t.S, b.lits[x], b.lits[y])
			b.s.roots[0] = []uint16{b.tts[x], b.tts[y]}
			cov.Nontriv++
			if e := trip(b.t, b.s, cov); e != nil {
				return e
			}
			return checkCopy(b, cov)
		},
		Known: knownSwap,
	}
	return &eng.Prop{ID: "C18", Level: "model_checking",
		Rule:  "a case is non-trivial if the system has a latch (part systems), always in the other parts",
		Parts: []*eng.Part{systems, lists, names, makefor, wideSys(), stdPart("standard", valid), wErr()},
		Notes: []string{"behaviour is compared as next-state and root functions over all reachable latch states and all inputs (at most 2 latches and 2 inputs), which decides equality on every input sequence", "binary files are written with a header maximum larger than the number of variables (pinned by TestWriteBinary); the reference parser tolerates that"},
	}
}

// checkCopy: a copy has the same meaning, and does not share anything.
func checkCopy(b *bsys, cov *eng.Cov) error {
	cp := aiger.Copy(b.t)
	got, e := sigOf(cp)
	if e != nil {
		return fmt.Errorf("copy: %v", e)
	}
	if e := b.s.cmp(got); e != nil {
		return fmt.Errorf("copy: %v", e)
	}
	cov.Traces++
	// change the copy everywhere
	i := cp.NewIn()
	l := cp.Latch(cp.S.T)
	g := cp.And(i, l)
	cp.SetOutput(g)
	for k, f := range nameFns(cp) {
		for i := 0; i < f.n; i++ {
			f.set(i, fmt.Sprintf("changed%c%d", k, i))
		}
	}
	for _, ms := range append([][]z.Lit{cp.Inputs, cp.Latches, cp.Outputs, cp.Bad, cp.Constraints, cp.Fair}, cp.Justice...) {
		for i := range ms {
			ms[i] = cp.S.T
		}
	}
	for i := range cp.Justice {
		cp.Justice[i] = nil
	}
	got, e = sigOf(b.t)
	if e != nil {
		return fmt.Errorf("after changing a copy, the original: %v", e)
	}
	if e := b.s.cmp(got); e != nil {
		return fmt.Errorf("after changing a copy, the original: %v", e)
	}
	return nil
}

// wErr: writers report write errors.
type failW struct{ left int }

var errW = errors.New("write failed")

func (f *failW) Write(b []byte) (int, error) {
	if len(b) > f.left {
		n := f.left
		f.left = 0
		return n, errW
	}
	f.left -= len(b)
	return len(b), nil
}

func wErr() *eng.Part {
	return &eng.Part{
		Name: "write-errors",
		Desc: "a write error after every number of bytes while writing a small and a large system in both formats: the writer returns an error",
		Enum: func(t eng.Tier, yield func([]int32) bool) { prod(yield, 2, 2, 400) },
		Run: func(c []int32, cov *eng.Cov) error {
			b := newB(true)
			b.op(0)
			b.op(3)
			b.op(4 + 2*6 + 5)
			b.setNext(0, 6)
			b.root(0, 6)
			if c[1] == 1 {
				for i := 0; i < 3000; i++ {
					b.root(0, 6)
				}
			}
			b.t.NameInput(0, "x")
			text, e := write(b.t, c[0] == 1)
			if e != nil {
				return e
			}
			at := len(text) * int(c[2]) / 400
			f := &failW{left: at}
			if c[0] == 1 {
				e = b.t.WriteBinary(f)
			} else {
				e = b.t.WriteAscii(f)
			}
			cov.Nontriv++
			if e == nil {
				return fmt.Errorf("no error although writing failed after %d of %d bytes", at, len(text))
			}
			return nil
		},
	}
}

// judge reads text with gini and holds the result against the reference.
// only: which of the two properties is being decided.
func judge(text string, bin bool, only class, cov *eng.Cov) error {
	cl, ref := refParse(text, bin)
	cov.Inc(cl.String())
	t, e := read(strings.NewReader(text), bin)
	cov.Trans++
	return decide(t, e, cl, ref, only, cov)
}

func decide(t *aiger.T, e error, cl class, ref *sig, only class, cov *eng.Cov) error {
	if (t == nil) == (e == nil) {
		return fmt.Errorf("returned system %v with error %v", t != nil, e)
	}
	if only == invalid {
		if cl == invalid {
			cov.Nontriv++
			if e == nil {
				return fmt.Errorf("a file with an undefined, redefined, cyclic or out-of-range literal was read")
			}
			return nil
		}
		if t != nil && ref != nil && cl <= lenient {
			_, e := sigOf(t)
			return e
		}
		return nil
	}
	if cl == valid {
		cov.Nontriv++
		if e != nil {
			return fmt.Errorf("a conforming file was rejected: %v", e)
		}
	}
	if e == nil && cl <= lenient && ref != nil {
		got, e := sigOf(t)
		if e != nil {
			return e
		}
		cov.Traces++
		return ref.cmp(got)
	}
	return nil
}

// stdPart enumerates file texts built from a template with every choice of
// literals.
func stdPart(name string, only class) *eng.Part {
	type shape struct{ m, i, l, a int }
	shapes := []shape{{0, 0, 0, 0}, {1, 1, 0, 0}, {1, 0, 1, 0}, {1, 0, 0, 1}, {2, 1, 0, 1}, {2, 0, 1, 1}, {3, 1, 0, 1}, {3, 0, 1, 1}, {3, 2, 0, 1}, {3, 1, 1, 1}, {3, 1, 0, 2}, {3, 0, 1, 2}}
	// texts: header, then the tokens
	gen := func(c []int32) (string, bool) {
		sh := shapes[c[1]]
		var b strings.Builder
		if c[0] == 1 {
			m := sh.i + sh.l + sh.a
			fmt.Fprintf(&b, "aig %d %d %d 1 %d\n", m, sh.i, sh.l, sh.a)
			p := c[2:]
			for i := 0; i < sh.l; i++ {
				fmt.Fprintf(&b, "%d", p[0])
				if p[1] > 0 {
					fmt.Fprintf(&b, " %d", p[1]-1)
				}
				b.WriteString("\n")
				p = p[2:]
			}
			fmt.Fprintf(&b, "%d\n", p[0])
			p = p[1:]
			for i := 0; i < 2*sh.a; i++ {
				b.WriteByte(byte(p[i]))
			}
			return b.String(), true
		}
		fmt.Fprintf(&b, "aag %d %d %d 1 %d\n", sh.m, sh.i, sh.l, sh.a)
		p := c[2:]
		for i := 0; i < sh.i; i++ {
			fmt.Fprintf(&b, "%d\n", p[0])
			p = p[1:]
		}
		for i := 0; i < sh.l; i++ {
			fmt.Fprintf(&b, "%d %d", p[0], p[1])
			if p[2] > 0 {
				fmt.Fprintf(&b, " %d", p[2]-1)
			}
			b.WriteString("\n")
			p = p[3:]
		}
		fmt.Fprintf(&b, "%d\n", p[0])
		p = p[1:]
		for i := 0; i < sh.a; i++ {
			fmt.Fprintf(&b, "%d %d %d\n", p[0], p[1], p[2])
			p = p[3:]
		}
		return b.String(), false
	}
	return &eng.Part{
		Name: name,
		Desc: "file texts by template, ascii: header shapes (M I L A) up to (3 1 1 1), (3 1 0 2), (3 0 1 2), every defined literal a permutation of the variables, every child, next-state, reset and output literal, and on top every single replacement of a defined literal by any number in 0..2M+3; binary: the same shapes with every next, reset and output number and every delta byte in 0..2M+3; judged by an independent parser and evaluator written from the AIGER 1.9 report",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for si, sh := range shapes {
				big := sh.i+sh.l+sh.a >= 3 && sh.a+sh.l >= 2
				hi := 2*sh.m + 2 // literals 0..2m+1
				n := sh.i + sh.l + sh.a
				var perms [][]int
				var perm []int
				used := map[int]bool{}
				var rec func()
				rec = func() {
					if len(perm) == n {
						perms = append(perms, append([]int(nil), perm...))
						return
					}
					for v := 1; v <= sh.m; v++ {
						if !used[v] {
							used[v] = true
							perm = append(perm, 2*v)
							rec()
							perm = perm[:len(perm)-1]
							used[v] = false
						}
					}
				}
				rec()
				quickBig := big && t == eng.Quick
				for pi, defs := range perms {
					alts := [][]int{defs}
					if only == invalid {
						for k := range defs {
							for x := 0; x <= 2*sh.m+3; x++ {
								if x != defs[k] {
									d := append([]int(nil), defs...)
									d[k] = x
									alts = append(alts, d)
								}
							}
						}
						if quickBig && pi%3 != 0 {
							continue
						}
					}
					for ai, d := range alts {
						var free []int // dims of the free positions
						for i := 0; i < sh.l; i++ {
							free = append(free, hi+1, hi+2)
						}
						free = append(free, hi+1)
						for i := 0; i < 2*sh.a; i++ {
							free = append(free, hi)
						}
						if only == valid || ai > 0 {
							for i := range free {
								if free[i] == hi+1 {
									free[i] = hi
								}
							}
						}
						if sh.a == 2 && ai > 0 { // the second gate fixed
							free[len(free)-1], free[len(free)-2] = 3, 2
							if quickBig && sh.l > 0 {
								free[0], free[1] = 2, 2
							}
						} else if quickBig && sh.l > 0 {
							if sh.a == 2 {
								free[0], free[1], free[2] = 3, 2, 3
							}
							if ai > 0 {
								free[0] = 3
							}
						}
						if !prod(func(c []int32) bool {
							q := []int32{0, int32(si)}
							k := 0
							for i := 0; i < sh.i; i++ {
								q = append(q, int32(d[k]))
								k++
							}
							p := 0
							for i := 0; i < sh.l; i++ {
								q = append(q, int32(d[k]), c[p], c[p+1])
								k++
								p += 2
							}
							q = append(q, c[p])
							p++
							for i := 0; i < sh.a; i++ {
								q = append(q, int32(d[k]), c[p], c[p+1])
								k++
								p += 2
							}
							return yield(q)
						}, free...) {
							return
						}
					}
				}
				// binary
				n = sh.i + sh.l + sh.a
				if n != sh.m {
					continue
				}
				top := 2*n + 4
				var dims []int
				for i := 0; i < sh.l; i++ {
					dims = append(dims, top, top+1)
				}
				dims = append(dims, top)
				for i := 0; i < 2*sh.a; i++ {
					dims = append(dims, top)
				}
				if !prod(func(c []int32) bool {
					return yield(append([]int32{1, int32(si)}, c...))
				}, dims...) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			text, bin := gen(c)
			e := judge(text, bin, only, cov)
			if e != nil {
				return fmt.Errorf("%v\n%q", e, text)
			}
			return nil
		},
		Show: func(c []int32) string {
			t, _ := gen(c)
			return fmt.Sprintf("%q", t)
		},
	}
}

// corpus: small conforming files, both formats.
func corpus() []string {
	txt := []string{
		"aag 0 0 0 0 0\n",
		"aag 0 0 0 1 0\n1\n",
		"aag 1 1 0 1 0\n2\n3\n",
		"aag 3 2 0 1 1\n2\n4\n6\n6 2 5\n",
		"aag 2 0 1 1 1\n2 4\n3\n4 2 1\n",
		"aag 4 1 1 1 2 1 1 1 1\n2\n4 8 4\n6\n7\n2\n2\n4\n5\n8\n6 2 4\n8 7 3\n",
		"aag 2 1 1 0 0 0 0 2\n2\n4 2 1\n1\n0\n4\n",
		"aag 3 1 1 1 1\n2\n4 6 0\n6\n6 2 4\ni0 a\nl0 b c\no0 d\nc\nhello\nx",
		"aag 1 1 0 0 0 1 1 1 1\n2\n2\n3\n1\n2\n0\nb0 x\nc0 y\nj0 z\nf0 w\nc\n",
		"aag 6 1 1 1 2\n10\n4 12 4\n6\n6 12 4\n12 5 11\n",
		"aig 0 0 0 0 0\n",
		"aig 1 1 0 1 0\n3\n",
		"aig 3 2 0 1 1\n6\n\x01\x03",
		"aig 2 0 1 1 1\n4\n3\n\x02\x02",
		"aig 4 1 1 1 2 1 1 1 1\n8 4\n6\n7\n2\n2\n4\n5\n8\n\x02\x02\x01\x04i0 q\nc\nc",
		"aig 3 1 1 0 1 0 0 2\n6 1\n1\n0\n4\n\x06\x00l0 e\n",
		"aig 5 2 1 2 2\n10 6\n11\n9\n\x02\x02\x01\x07c\nfoo\n",
	}
	// one with a two byte delta
	var b strings.Builder
	b.WriteString("aig 67 2 0 1 65\n134\n")
	for i := 0; i < 65; i++ {
		id := 2 * (3 + i)
		d0 := id - 4
		for d0 >= 128 {
			b.WriteByte(byte(d0&127 | 128))
			d0 >>= 7
		}
		b.WriteByte(byte(d0))
		b.WriteByte(2)
	}
	txt = append(txt, b.String())
	return txt
}

type chunkReader struct {
	s   string
	n   int
	err error
}

func (r *chunkReader) Read(b []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, r.err
	}
	n := r.n
	if n > len(r.s) {
		n = len(r.s)
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, r.s[:n])
	r.s = r.s[n:]
	return n, nil
}

var errRead = errors.New("some read error")

func c19() *eng.Prop {
	cs := corpus()
	both := func(text string, cov *eng.Cov) error {
		for _, only := range []class{invalid, valid} {
			for _, bin := range []bool{false, true} {
				if e := judge(text, bin, only, cov); e != nil {
					return fmt.Errorf("%s reader: %v\n%q", format(bin), e, text)
				}
			}
		}
		return nil
	}
	for i, s := range cs {
		if cl, _ := refParse(s, strings.HasPrefix(s, "aig")); cl != valid {
			panic(fmt.Sprintf("corpus %d is %s", i, cl))
		}
	}
	mutate := func(c []int32) string {
		s := cs[c[0]]
		p := int(c[2])
		switch c[1] {
		case 0:
			return s[:p] + string([]byte{byte(c[3])}) + s[p+1:]
		case 1:
			return s[:p] + string([]byte{byte(c[3])}) + s[p:]
		case 2:
			return s[:p] + s[p+1:]
		default:
			return s[:p]
		}
	}
	bytesPart := &eng.Part{
		Name: "bytes",
		Desc: "18 conforming files in both formats (all sections, symbols, comments, constants, unknown resets, multi-byte deltas): every substitution and insertion of each of the 256 byte values at every position, every deletion and every truncation, through both readers",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for i, s := range cs {
				for p := 0; p <= len(s); p++ {
					for b := 0; b < 256; b++ {
						if p < len(s) && !yield([]int32{int32(i), 0, int32(p), int32(b)}) {
							return
						}
						if !yield([]int32{int32(i), 1, int32(p), int32(b)}) {
							return
						}
					}
					if p < len(s) && !yield([]int32{int32(i), 2, int32(p), 0}) {
						return
					}
					if !yield([]int32{int32(i), 3, int32(p), 0}) {
						return
					}
				}
			}
		},
		Run:  func(c []int32, cov *eng.Cov) error { return both(mutate(c), cov) },
		Show: func(c []int32) string { return fmt.Sprintf("%q", mutate(c)) },
		Hang: 20 * time.Second,
	}
	alpha := []byte("0123456789 \nilc\x00\x80\xff")
	mut2 := func(c []int32) string {
		b := []byte(cs[c[0]])
		b[c[1]] = alpha[c[2]]
		b[c[3]] = alpha[c[4]]
		return string(b)
	}
	pairs := &eng.Part{
		Name: "pairs",
		Desc: "every pair of substitutions by 18 byte values at every two positions of the corpus files (quick: of the 10 shortest)",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for i, s := range cs {
				if t == eng.Quick && len(s) > 40 || len(s) > 120 {
					continue
				}
				for p := 0; p < len(s); p++ {
					for q := p + 1; q < len(s); q++ {
						for x := range alpha {
							for y := range alpha {
								if !yield([]int32{int32(i), int32(p), int32(x), int32(q), int32(y)}) {
									return
								}
							}
						}
					}
				}
			}
		},
		Run:  func(c []int32, cov *eng.Cov) error { return both(mut2(c), cov) },
		Show: func(c []int32) string { return fmt.Sprintf("%q", mut2(c)) },
		Hang: 20 * time.Second,
	}
	toks := []string{"aag", "aig", " ", "\n", "0", "1", "2", "3", "4", "5", "c", "i0", "\x01"}
	tokText := func(c []int32) string {
		var b strings.Builder
		for _, x := range c[1:] {
			b.WriteString(toks[x])
		}
		return []string{"", "aag 1 1 0 0", "aag 2 0 1 1 1\n", "aig 1 0 1 0 0\n", "aig 2 1 0 0 1 0 0 1\n"}[c[0]] + b.String()
	}
	tokens := &eng.Part{
		Name: "tokens",
		Desc: "every sequence of up to 5 (thorough 6) of 13 tokens after each of 5 prefixes",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for n := 0; n <= t.Pick(5, 6); n++ {
				dims := []int{5}
				for i := 0; i < n; i++ {
					dims = append(dims, len(toks))
				}
				if !prod(yield, dims...) {
					return
				}
			}
		},
		Run:  func(c []int32, cov *eng.Cov) error { return both(tokText(c), cov) },
		Show: func(c []int32) string { return fmt.Sprintf("%q", tokText(c)) },
		Hang: 20 * time.Second,
	}
	nums := []string{"0", "1", "2", "3", "4", "255", "65536", "1073741823", "1073741824", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "184467440737095516150", "99999999999999999999999999999999", "-1", "+1", "00", ""}
	hdrText := func(c []int32) string {
		vals := []string{"3", "1", "1", "1", "1", "0", "0", "0", "0"}
		n := 5 + int(c[1])
		vals[c[2]] = nums[c[3]]
		vals[c[4]] = nums[c[5]]
		if c[0] == 0 {
			return "aag " + strings.Join(vals[:n], " ") + "\n2\n4 6\n6\n6 2 4\n"
		}
		return "aig " + strings.Join(vals[:n], " ") + "\n6\n6\n\x02\x02"
	}
	headers := &eng.Part{
		Name: "headers",
		Desc: "headers with 5 to 9 fields, every pair of fields replaced by every pair of 23 numbers around the limits of the formats and of machine integers (the number of binary inputs only up to 65536: such files are valid and must be read in full)",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			prod(func(c []int32) bool {
				if int(c[2]) >= 5+int(c[1]) || int(c[4]) >= 5+int(c[1]) || c[2] > c[4] {
					return true
				}
				if c[0] == 1 && (c[2] == 1 && c[3] > 6 || c[4] == 1 && c[5] > 6) {
					return true
				}
				return yield(c)
			}, 2, 5, 9, len(nums), 9, len(nums))
		},
		Run:  func(c []int32, cov *eng.Cov) error { return both(hdrText(c), cov) },
		Show: func(c []int32) string { return fmt.Sprintf("%q", hdrText(c)) },
		Hang: 20 * time.Second,
	}
	faults := &eng.Part{
		Name: "read-errors",
		Desc: "every corpus file in pieces of 1..8 bytes, cut off after every prefix by a read error other than EOF, or by EOF: an error at any point is reported, and pieces make no difference",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for i, s := range cs {
				for p := 0; p <= len(s); p++ {
					for k := 1; k <= 8; k++ {
						for e := 0; e < 2; e++ {
							if !yield([]int32{int32(i), int32(p), int32(k), int32(e)}) {
								return
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			s := cs[c[0]][:c[1]]
			bin := strings.HasPrefix(cs[c[0]], "aig")
			cov.Nontriv++
			if c[3] == 0 {
				t, e := read(&chunkReader{s, int(c[2]), errRead}, bin)
				if e == nil || t != nil {
					return fmt.Errorf("a read error after %q was not reported", s)
				}
				return nil
			}
			cl, ref := refParse(s, bin)
			t, e := read(&chunkReader{s, int(c[2]), io.EOF}, bin)
			if e := decide(t, e, cl, ref, valid, cov); e != nil {
				return fmt.Errorf("%v\n%q in pieces of %d", e, s, c[2])
			}
			return decide(t, e, cl, ref, invalid, cov)
		},
		Hang: 10 * time.Second,
	}
	return &eng.Prop{ID: "C19", Level: "model_checking",
		Rule:  "a case is non-trivial if the text breaks a literal rule of the standard or is conforming",
		Parts: []*eng.Part{stdPart("literals", invalid), bytesPart, pairs, tokens, headers, faults},
		Notes: []string{"texts the reference calls malformed for other reasons than their literals may be read or rejected", "binary headers announcing more than 65536 inputs are not run: they are valid files of that size"},
	}
}

var _ = logic.NewS
