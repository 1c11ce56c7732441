package main

import (
	"fmt"

	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/logic/aiger"
	"github.com/go-air/gini/z"
)

// sig is what a transition system is: per latch reset value and next-state
// function, and all the roots, as truth tables over the (at most two) inputs
// and (at most two) latches.  Bit x of a table: the value when input i is bit
// i of x and latch i is bit 2+i of x.
type sig struct {
	nIn   int
	init  []int // 0, 1, 2: unknown
	next  []uint16
	roots [4][]uint16 // outputs, bad, constraints, fair
	just  [][]uint16
	names map[string]string
}

var rootName = [4]string{"output", "bad", "constraint", "fair"}
var tab = [4]uint16{0xaaaa, 0xcccc, 0xf0f0, 0xff00}

// wide systems have more inputs and latches than all assignments can be tried
// for: 16 assignments of a fixed table at a time, wide-1 says which.
var wide int

// word: the values of input (k=0) or latch (k=1) i.
func word(k, i int) uint16 {
	if wide == 0 {
		return tab[2*k+i]
	}
	x := uint64(wide)<<32 + uint64(k)<<24 + uint64(i)
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return uint16(x >> 40)
}

// reach gives the assignments whose latch part is reachable.
func (s *sig) reach() uint16 {
	if wide != 0 {
		return 0xffff
	}
	nl := len(s.init)
	var seen [4]bool
	var q []int
	for st := 0; st < 1<<uint(nl); st++ {
		ok := true
		for i, v := range s.init {
			if v != 2 && st>>uint(i)&1 != v {
				ok = false
			}
		}
		if ok {
			seen[st] = true
			q = append(q, st)
		}
	}
	for len(q) > 0 {
		st := q[0]
		q = q[1:]
		for in := 0; in < 4; in++ {
			x := uint(in | st<<2)
			n := 0
			for i := range s.next {
				n |= int(s.next[i]>>x&1) << uint(i)
			}
			if !seen[n] {
				seen[n] = true
				q = append(q, n)
			}
		}
	}
	var m uint16
	for x := 0; x < 16; x++ {
		if seen[x>>2] {
			m |= 1 << uint(x)
		}
	}
	return m
}

func cmpTabs(what string, a, b []uint16, mask uint16) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d %ss, expected %d", len(b), what, len(a))
	}
	for i := range a {
		if (a[i]^b[i])&mask != 0 {
			return fmt.Errorf("%s %d has function %016b, expected %016b (assignments that can occur: %016b)", what, i, b[i], a[i], mask)
		}
	}
	return nil
}

// cmp tells how got differs from s.
func (s *sig) cmp(got *sig) error {
	if s.nIn != got.nIn {
		return fmt.Errorf("%d inputs, expected %d", got.nIn, s.nIn)
	}
	if fmt.Sprint(s.init) != fmt.Sprint(got.init) {
		return fmt.Errorf("reset values %v, expected %v (2: unknown)", got.init, s.init)
	}
	mask := s.reach()
	if e := cmpTabs("next state", s.next, got.next, mask); e != nil {
		return e
	}
	for k := range s.roots {
		if e := cmpTabs(rootName[k], s.roots[k], got.roots[k], mask); e != nil {
			return e
		}
	}
	if len(s.just) != len(got.just) {
		return fmt.Errorf("%d justice properties, expected %d", len(got.just), len(s.just))
	}
	for i := range s.just {
		if e := cmpTabs(fmt.Sprintf("literal of justice %d", i), s.just[i], got.just[i], mask); e != nil {
			return e
		}
	}
	if len(s.names) != len(got.names) {
		return fmt.Errorf("names %v, expected %v", got.names, s.names)
	}
	for k, v := range s.names {
		if w, ok := got.names[k]; !ok || v != w {
			return fmt.Errorf("name of %s is %q (found %v), expected %q", k, w, ok, v)
		}
	}
	return nil
}

// sigOf reads the signature off a gini system, by evaluating its nodes.
func sigOf(t *aiger.T) (s *sig, err error) {
	n := t.Len()
	s = &sig{nIn: len(t.Inputs), names: map[string]string{}}
	if wide == 0 && (len(t.Inputs) > 2 || len(t.Latches) > 2) {
		return nil, fmt.Errorf("%d inputs and %d latches, more than the file has", len(t.Inputs), len(t.Latches))
	}
	vs := make([]uint16, n)
	set := make([]bool, n)
	chk := func(m z.Lit) bool { return m != z.LitNull && int(m.Var()) < n && m.Var() != 0 }
	for i, m := range t.Inputs {
		if !chk(m) || t.S.Type(m) != logic.SInput || set[m.Var()] || !m.IsPos() {
			return nil, fmt.Errorf("input %d is %s, not an input node of its own", i, m)
		}
		vs[m.Var()], set[m.Var()] = word(0, i), true
	}
	for i, m := range t.Latches {
		if !chk(m) || t.S.Type(m) != logic.SLatch || set[m.Var()] || !m.IsPos() {
			return nil, fmt.Errorf("latch %d is %s, not a latch node of its own", i, m)
		}
		vs[m.Var()], set[m.Var()] = word(1, i), true
	}
	vs[t.S.T.Var()], set[t.S.T.Var()] = 0xffff, true
	if !t.S.T.IsPos() {
		vs[t.S.T.Var()] = 0
	}
	val := func(m z.Lit) (uint16, error) {
		if !chk(m) || !set[m.Var()] {
			return 0, fmt.Errorf("literal %d (%s) is not defined in the system", uint32(m), m)
		}
		if m.IsPos() {
			return vs[m.Var()], nil
		}
		return ^vs[m.Var()], nil
	}
	for i := 1; i < n; i++ {
		m := t.At(i)
		if t.S.Type(m) != logic.SAnd {
			continue
		}
		a, b := t.Ins(m)
		x, e1 := val(a)
		y, e2 := val(b)
		if e1 != nil || e2 != nil {
			continue // reported when used
		}
		vs[m.Var()], set[m.Var()] = x&y, true
	}
	for i, m := range t.Latches {
		switch t.Init(m) {
		case t.S.F:
			s.init = append(s.init, 0)
		case t.S.T:
			s.init = append(s.init, 1)
		case z.LitNull:
			s.init = append(s.init, 2)
		default:
			return nil, fmt.Errorf("latch %d has reset value %s", i, t.Init(m))
		}
		x, e := val(t.Next(m))
		if e != nil {
			return nil, fmt.Errorf("next state of latch %d: %v", i, e)
		}
		s.next = append(s.next, x)
	}
	for k, ms := range [4][]z.Lit{t.Outputs, t.Bad, t.Constraints, t.Fair} {
		for i, m := range ms {
			x, e := val(m)
			if e != nil {
				return nil, fmt.Errorf("%s %d: %v", rootName[k], i, e)
			}
			s.roots[k] = append(s.roots[k], x)
		}
	}
	for i, ms := range t.Justice {
		var xs []uint16
		for _, m := range ms {
			x, e := val(m)
			if e != nil {
				return nil, fmt.Errorf("justice %d: %v", i, e)
			}
			xs = append(xs, x)
		}
		s.just = append(s.just, xs)
	}
	for k, f := range nameFns(t) {
		for i := -1; i < f.n+2; i++ {
			if nm, ok := f.get(i); ok {
				s.names[fmt.Sprintf("%c%d", k, i)] = nm
			}
		}
	}
	return s, nil
}

type nameFn struct {
	n   int
	get func(int) (string, bool)
	set func(int, string) error
}

func nameFns(t *aiger.T) map[byte]nameFn {
	return map[byte]nameFn{
		'i': {len(t.Inputs), t.InputName, t.NameInput},
		'l': {len(t.Latches), t.LatchName, t.NameLatch},
		'o': {len(t.Outputs), t.OutputName, t.NameOutput},
		'b': {len(t.Bad), t.BadName, t.NameBad},
		'c': {len(t.Constraints), t.ConstraintName, t.NameConstraint},
		'j': {len(t.Justice), t.JusticeName, t.NameJustice},
		'f': {len(t.Fair), t.FairName, t.NameFair},
	}
}

// class is what the AIGER 1.9 standard says about a text.
type class int

const (
	valid     class = iota // conforming: must be read, with this meaning
	lenient                // not conforming, but with one evident meaning
	invalid                // a literal is undefined, redefined, cyclic or out of range
	malformed              // anything else
)

func (c class) String() string { return [...]string{"valid", "lenient", "invalid", "malformed"}[c] }

type refParser struct {
	b   string
	p   int
	bad bool // malformed
	inv bool // a literal rule is broken
	len bool
}

func (r *refParser) byte() (byte, bool) {
	if r.p >= len(r.b) {
		r.bad = true
		return 0, false
	}
	r.p++
	return r.b[r.p-1], true
}
func (r *refParser) want(c byte) {
	if r.bad {
		return
	}
	if x, ok := r.byte(); !ok || x != c {
		r.bad = true
	}
}
func (r *refParser) num() uint64 {
	if r.bad {
		return 0
	}
	var n uint64
	st := r.p
	for r.p < len(r.b) && r.b[r.p] >= '0' && r.b[r.p] <= '9' {
		n = n*10 + uint64(r.b[r.p]-'0')
		if n > 1<<40 {
			n = 1 << 40
		}
		r.p++
	}
	if r.p == st {
		r.bad = true
		return 0
	}
	if r.p-st > 1 && r.b[st] == '0' {
		r.len = true // leading zero
	}
	return n
}
func (r *refParser) peek() byte {
	if r.p < len(r.b) {
		return r.b[r.p]
	}
	return 0
}
func (r *refParser) read7() uint64 {
	var n uint64
	for i := 0; ; i++ {
		b, ok := r.byte()
		if !ok {
			return 0
		}
		if i >= 10 {
			r.bad = true
			return 0
		}
		if i > 0 && b == 0 {
			r.len = true
		}
		if i < 5 {
			n |= uint64(b&0x7f) << uint(7*i)
		} else if b&0x7f != 0 {
			n |= 1 << 40
		}
		if b&0x80 == 0 {
			return n
		}
	}
}

// maxRef bounds the counts the reference reads (larger: malformed, unjudged).
const maxRef = 4000

// refParse reads a text as the standard says.
func refParse(text string, binary bool) (class, *sig) {
	r := &refParser{b: text}
	magic := "aag "
	if binary {
		magic = "aig "
	}
	if len(text) < 4 || text[:4] != magic {
		return malformed, nil
	}
	r.p = 4
	var h [9]uint64
	n := 0
	for {
		h[n] = r.num()
		n++
		if r.bad {
			return malformed, nil
		}
		c, _ := r.byte()
		if c == '\n' && n >= 5 {
			break
		}
		if c != ' ' || n == 9 {
			return malformed, nil
		}
	}
	M, I, L, O, A := h[0], h[1], h[2], h[3], h[4]
	if M >= 1<<30 || I+L+A > M {
		return malformed, nil
	}
	for _, x := range h[1:] {
		if wide == 0 && x > maxRef {
			return malformed, nil
		}
	}
	if binary && I+L+A != M {
		r.len = true
	}
	type def struct {
		kind int // 1 input 2 latch 3 and
		i    int
	}
	defs := map[uint64]def{0: {0, 0}}
	define := func(l uint64, d def) {
		if l&1 != 0 || l > 2*M+1 {
			r.inv = true
			return
		}
		if _, ok := defs[l>>1]; ok {
			r.inv = true
			return
		}
		defs[l>>1] = d
	}
	s := &sig{nIn: int(I), names: map[string]string{}}
	for i := uint64(0); i < I; i++ {
		l := 2 * (i + 1)
		if !binary {
			l = r.num()
			r.want('\n')
			if r.bad {
				return malformed, nil
			}
		}
		define(l, def{1, int(i)})
	}
	var nexts []uint64
	for i := uint64(0); i < L; i++ {
		l := 2 * (I + i + 1)
		if !binary {
			l = r.num()
			r.want(' ')
		}
		nexts = append(nexts, r.num())
		if r.bad {
			return malformed, nil
		}
		define(l, def{2, int(i)})
		init := 0
		if r.peek() == ' ' {
			r.p++
			x := r.num()
			switch {
			case x == 0:
			case x == 1:
				init = 1
			case x == l:
				init = 2
			default:
				r.inv = true
			}
		}
		s.init = append(s.init, init)
		r.want('\n')
		if r.bad {
			return malformed, nil
		}
	}
	var roots [4][]uint64
	list := func(k int, n uint64) bool {
		for i := uint64(0); i < n && !r.bad; i++ {
			roots[k] = append(roots[k], r.num())
			r.want('\n')
		}
		return !r.bad
	}
	var just [][]uint64
	if !list(0, O) || !list(1, h[5]) || !list(2, h[6]) {
		return malformed, nil
	}
	var jn []uint64
	for i := uint64(0); i < h[7] && !r.bad; i++ {
		jn = append(jn, r.num())
		r.want('\n')
	}
	for _, n := range jn {
		ms := []uint64{}
		for i := uint64(0); i < n && !r.bad; i++ {
			ms = append(ms, r.num())
			r.want('\n')
		}
		just = append(just, ms)
	}
	if r.bad || !list(3, h[8]) {
		return malformed, nil
	}
	var ch [][2]uint64
	var andLit []uint64
	for i := uint64(0); i < A; i++ {
		if binary {
			id := 2 * (I + L + 1 + i)
			d0 := r.read7()
			if r.bad {
				return malformed, nil
			}
			d1 := r.read7()
			if r.bad {
				return malformed, nil
			}
			if d0 == 0 || d0 > id || d1 > id-d0 {
				return invalid, nil
			}
			ch = append(ch, [2]uint64{id - d0, id - d0 - d1})
			define(id, def{3, int(i)})
			andLit = append(andLit, id)
		} else {
			g := r.num()
			r.want(' ')
			a := r.num()
			r.want(' ')
			b := r.num()
			r.want('\n')
			if r.bad {
				return malformed, nil
			}
			define(g, def{3, int(i)})
			ch = append(ch, [2]uint64{a, b})
			andLit = append(andLit, g)
		}
	}
	// symbols and comments
	lim := map[byte]uint64{'i': I, 'l': L, 'o': O, 'b': h[5], 'c': h[6], 'j': h[7], 'f': h[8]}
	for r.p < len(r.b) && !r.bad {
		k, _ := r.byte()
		if k == 'c' && r.peek() == '\n' {
			r.p = len(r.b)
			break
		}
		mx, ok := lim[k]
		if !ok {
			return worse(r, malformed), nil
		}
		i := r.num()
		r.want(' ')
		if r.bad || i >= mx {
			return worse(r, malformed), nil
		}
		st := r.p
		for r.p < len(r.b) && r.b[r.p] != '\n' {
			r.p++
		}
		if r.p >= len(r.b) {
			return worse(r, malformed), nil
		}
		key := fmt.Sprintf("%c%d", k, i)
		if _, ok := s.names[key]; ok {
			r.len = true
		}
		if r.p == st {
			r.len = true // empty name
		}
		s.names[key] = r.b[st:r.p]
		r.p++
	}
	// meaning
	if r.bad {
		return malformed, nil
	}
	memo := map[uint64]uint16{}
	col := map[uint64]int{}
	var val func(l uint64) uint16
	val = func(l uint64) uint16 {
		if r.inv {
			return 0
		}
		var x uint16
		d, ok := defs[l>>1]
		if !ok || l > 2*M+1 {
			r.inv = true
			return 0
		}
		switch d.kind {
		case 0:
			x = 0
		case 1:
			if d.i < 2 || wide != 0 {
				x = word(0, d.i)
			}
		case 2:
			if d.i < 2 || wide != 0 {
				x = word(1, d.i)
			}
		case 3:
			v := l >> 1
			if col[v] == 1 {
				r.inv = true
				return 0
			}
			if col[v] == 0 {
				col[v] = 1
				a := val(ch[d.i][0])
				b := val(ch[d.i][1])
				memo[v] = a & b
				col[v] = 2
			}
			x = memo[v]
		}
		if l&1 != 0 {
			return ^x
		}
		return x
	}
	for _, l := range andLit {
		val(l)
	}
	for _, l := range nexts {
		s.next = append(s.next, val(l))
	}
	for k := range roots {
		for _, l := range roots[k] {
			s.roots[k] = append(s.roots[k], val(l))
		}
	}
	for _, ls := range just {
		xs := []uint16{}
		for _, l := range ls {
			xs = append(xs, val(l))
		}
		s.just = append(s.just, xs)
	}
	if r.inv {
		return invalid, nil
	}
	if wide == 0 && (I > 2 || L > 2) {
		s = nil // too large to compare
	}
	if r.len {
		return lenient, s
	}
	return valid, s
}

// worse keeps a broken literal rule in front of a broken layout: a later
// layout error does not make the text readable.
func worse(r *refParser, c class) class {
	if r.inv {
		return invalid
	}
	return c
}
