//go:build sched

package main

import (
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/vnet"
	"github.com/go-air/gini/vsched"

	"vh/eng"
	"vh/sat"
)

func op(p crisp.ProtoPoint) uint32 { return uint32(p) }

// item is something a peer sends.
type item struct {
	name string
	b    []byte
	kind byte
	cs   [][]int
	as   []int // assumed or asked for
}

// kinds of items
const (
	kPlain  = iota // no answer, allowed when no solve is going on
	kAdd           // clauses, no answer
	kAssume        // assumptions, no answer
	kSolve
	kCont
	kEnd
	kModel
	kModelFor
	kFailed
	kFailedFor
	kExt
	kReset
	kQuit
	kBad  // nothing the protocol allows
	kOver // a number outside the range
	kPart // an operation that goes on: whatever follows belongs to it
)

func msg(vs ...uint32) []byte {
	var b []byte
	for _, v := range vs {
		b = append(b, enc(v)...)
	}
	return b
}

func u(ls ...int) []uint32 {
	var r []uint32
	for _, l := range ls {
		if l == 0 {
			r = append(r, 0)
		} else {
			r = append(r, uint32(lit(l)))
		}
	}
	return r
}

func opl(p crisp.ProtoPoint, vs ...uint32) []byte { return msg(append([]uint32{op(p)}, vs...)...) }

var items = []item{
	{name: "add 1, -1|2", kind: kAdd, b: opl(crisp.Add, append(u(1, 0, -1, 2, 0), op(crisp.End))...), cs: [][]int{{1}, {-1, 2}}},
	{name: "add -2|-40|3", kind: kAdd, b: opl(crisp.Add, append(u(-2, -40, 3, 0), op(crisp.End))...), cs: [][]int{{-2, -40, 3}}},
	{name: "add empty", kind: kAdd, b: opl(crisp.Add, 0, op(crisp.End)), cs: [][]int{{}}},
	{name: "add nothing", kind: kAdd, b: opl(crisp.Add, op(crisp.End))},
	{name: "assume -2", kind: kAssume, b: opl(crisp.Assume, u(-2, 0)...), as: []int{-2}},
	{name: "assume 40 1", kind: kAssume, b: opl(crisp.Assume, u(40, 1, 0)...), as: []int{40, 1}},
	{name: "assume nothing", kind: kAssume, b: opl(crisp.Assume, 0)},
	{name: "solve", kind: kSolve, b: opl(crisp.Solve)},
	{name: "continue", kind: kCont, b: opl(crisp.Continue)},
	{name: "end", kind: kEnd, b: opl(crisp.End)},
	{name: "model", kind: kModel, b: opl(crisp.Model)},
	{name: "modelfor 40 -1 77 -77", kind: kModelFor, b: opl(crisp.ModelFor, u(40, -1, 77, -77, 0)...), as: []int{40, -1, 77, -77}},
	{name: "modelfor nothing", kind: kModelFor, b: opl(crisp.ModelFor, 0)},
	{name: "failed", kind: kFailed, b: opl(crisp.Failed)},
	{name: "failedfor 1 7 -2 40", kind: kFailedFor, b: opl(crisp.FailedFor, u(1, 7, -2, 40, 0)...), as: []int{1, 7, -2, 40}},
	{name: "ext", kind: kExt, b: opl(crisp.Ext)},
	{name: "reset", kind: kReset, b: opl(crisp.Reset)},
	{name: "key", kind: kPlain, b: opl(crisp.Key, 2, 5, 0xffffffff)},
	{name: "quit", kind: kQuit, b: opl(crisp.Quit)},
	// what a peer may not send
	{name: "sat", kind: kBad, b: opl(crisp.Sat)},
	{name: "unknown", kind: kBad, b: opl(crisp.Unknown)},
	{name: "extension op", kind: kBad, b: opl(crisp.MinProto + 3)},
	{name: "data", kind: kBad, b: msg(77)},
	{name: "add of variable 0", kind: kBad, b: opl(crisp.Add, 1, 0, op(crisp.End))},
	{name: "assume variable 0", kind: kBad, b: opl(crisp.Assume, 4, 1, 0)},
	{name: "modelfor variable 0", kind: kBad, b: opl(crisp.ModelFor, 1, 0)},
	{name: "add with op inside", kind: kBad, b: opl(crisp.Add, 4, op(crisp.Solve))},
	{name: "assume with op inside", kind: kBad, b: opl(crisp.Assume, 4, op(crisp.Solve))},
	{name: "failedfor with op inside", kind: kBad, b: opl(crisp.FailedFor, 4, op(crisp.End))},
	{name: "long number", kind: kOver, b: []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0x01}},
	{name: "long number in add", kind: kOver, b: append(opl(crisp.Add, 4), 0x84, 0x80, 0x80, 0x80, 0x10)},
	{name: "long number in assume", kind: kOver, b: append(opl(crisp.Assume, 4), 0x84, 0x80, 0x80, 0x80, 0x80, 0x00)},
	{name: "half an op", kind: kPart, b: []byte{0xff, 0xff}},
	{name: "open add", kind: kPart, b: opl(crisp.Add, 4)},
	{name: "open assume", kind: kPart, b: opl(crisp.Assume, 4)},
	{name: "long key", kind: kPart, b: opl(crisp.Key, 0xffffffff, 1)},
}

// peer talks raw bytes to the server, knowing what it should answer.
type peer struct {
	c     vnet.Conn
	buf   []byte
	where string
	cs    [][]int
	as    []int
	used  []int
	any   bool // there was a solve
	res   int
	since bool // something was added or assumed since the last solve
	busy  bool // unknown was the last answer
	vague bool // other operations came since, which may or may not matter
	maxV  int
	pipe  bool // send as much as possible at once
	later []byte
	exp   []expect
}

type expect struct {
	it    *item
	model sat.BS
	used  []int
	maxV  int
}

// next reads a value; ok is false if the server has closed the connection.
func (p *peer) next() (v uint32, ok bool) {
	b := make([]byte, 600)
	for {
		v, n := dec(p.buf)
		failIf(n < 0, "%sthe server sends %x", p.where, lastBytes(p.buf))
		if n > 0 {
			p.buf = p.buf[n:]
			return v, true
		}
		k, e := p.c.Read(b)
		if e != nil {
			failIf(len(p.buf) > 0, "%sthe server stops in the middle of a number", p.where)
			return 0, false
		}
		p.buf = append(p.buf, b[:k]...)
	}
}

func (p *peer) connect() {
	c, e := vnet.Dial("tcp", crispAddr)
	failIf(e != nil, "%sdial: %v", p.where, e)
	p.c = c
	for _, x := range "CRISP" {
		v, ok := p.next()
		failIf(!ok || v != uint32(x), "%sbad greeting", p.where)
	}
	_, ok := p.next()
	failIf(!ok, "%sno version", p.where)
}

// refused reads an error with one of the codes, or just the end if soft.
func (p *peer) refused(soft bool, codes ...crisp.ProtoErr) {
	v, ok := p.next()
	if !ok {
		failIf(!soft, "%sthe server closes the connection without <error>", p.where)
		inc("closed")
		return
	}
	failIf(v != op(crisp.Error), "%sthe server answers %s instead of <error>", p.where, crisp.ProtoPoint(v))
	v, ok = p.next()
	failIf(!ok, "%s<error> without a code", p.where)
	good := len(codes) == 0
	for _, c := range codes {
		good = good || v == uint32(c)
	}
	failIf(!good, "%serror %q, should be %q", p.where, crisp.ProtoErr(v), codes)
	v, ok = p.next()
	failIf(ok, "%sthe server goes on (%s) after an error", p.where, crisp.ProtoPoint(v))
	inc("errors")
}

func (p *peer) get() uint32 {
	v, ok := p.next()
	failIf(!ok, "%sthe server closes the connection", p.where)
	failIf(v == op(crisp.Error), "%serror answered", p.where)
	return v
}

func (p *peer) list() []uint32 {
	var r []uint32
	for {
		v := p.get()
		if v == 0 {
			return r
		}
		failIf(v >= op(crisp.MinProto), "%s%s in a list of literals", p.where, crisp.ProtoPoint(v))
		r = append(r, v)
		failIf(len(r) > 1000, "%sendless list", p.where)
	}
}

func (p *peer) bits(n int) func(i int) bool {
	k := p.get()
	failIf(int(k) != (n+31)/32, "%s%d words for %d values", p.where, k, n)
	w := make([]uint32, k)
	for i := range w {
		// any value at all may come here
		v, ok := p.next()
		failIf(!ok, "%sthe server closes the connection within a model", p.where)
		w[i] = v
	}
	return func(i int) bool { return w[i/32]>>uint(i%32)&1 == 1 }
}

// send sends now, or later together with more.
func (p *peer) send(b []byte, now bool) {
	p.later = append(p.later, b...)
	if now {
		p.flush()
	}
}

func (p *peer) flush() {
	if len(p.later) > 0 {
		p.c.Write(p.later)
		p.later = nil
	}
}

// answers reads what is still to be answered.
func (p *peer) answers() {
	p.flush()
	for _, x := range p.exp {
		switch x.it.kind {
		case kExt:
			v := p.get()
			failIf(v != 0, "%sextension %d", p.where, v)
		case kModel:
			m := p.bits(x.maxV)
			failIf(!hasVal(x.model, func(v int) bool { return v <= x.maxV && m(v-1) }), "%sno model", p.where)
			inc("models")
		case kModelFor:
			m := p.bits(len(x.it.as))
			var ms []bool
			for i := range x.it.as {
				ms = append(ms, m(i))
			}
			b := x.model
			for i, l := range x.it.as {
				if abs(l) == 77 || abs(l) > x.maxV {
					continue
				}
				if !ms[i] {
					l = -l
				}
				b = b.With(to4(l))
			}
			failIf(b.Empty(), "%s%v is no part of a model", p.where, ms)
			failIf(len(ms) == 4 && ms[2] == ms[3], "%sa literal and its negation have the same value", p.where)
			inc("partial models")
		case kFailed, kFailedFor:
			var ws []int
			for _, v := range p.list() {
				ok := false
				for _, a := range x.used {
					ok = ok || uint32(lit(a)) == v
				}
				failIf(!ok, "%s%d was not assumed", p.where, v)
				ws = append(ws, lit0(v))
			}
			if x.it.kind == kFailed {
				b := x.model
				for _, w := range ws {
					b = b.With(to4(w))
				}
				failIf(!b.Empty(), "%sfailed %v does not suffice", p.where, ws)
			} else {
				// in the order asked
				i := 0
				for _, a := range x.it.as {
					if i < len(ws) && ws[i] == a {
						i++
					}
				}
				failIf(i < len(ws), "%s%v is not in the order asked for", p.where, ws)
			}
			inc("failed")
		}
	}
	p.exp = nil
}

func lit0(v uint32) int {
	if v&1 == 1 {
		return -int(v >> 1)
	}
	return int(v >> 1)
}

func to4(l int) int {
	switch l {
	case 40:
		return 4
	case -40:
		return -4
	}
	return l
}

func (p *peer) note(ls ...int) {
	for _, l := range ls {
		if abs(l) > p.maxV {
			p.maxV = abs(l)
		}
	}
}

// do sends an item and checks the answer; over if the session has ended.
func (p *peer) do(it *item) (over bool) {
	if it.kind == kQuit {
		p.answers()
		p.send(it.b, true)
		v, ok := p.next()
		failIf(ok, "%sthe server answers %s to <quit>", p.where, crisp.ProtoPoint(v))
		return true
	}
	if it.kind == kBad || it.kind == kOver {
		if !p.pipe {
			p.answers()
		}
		p.send(it.b, true)
		p.answers()
		if it.kind == kOver && !p.busy {
			p.refused(false, crisp.ErrVarUint)
		} else {
			p.refused(true)
		}
		return true
	}
	if it.kind == kPart {
		p.answers()
		p.send(it.b, true)
		return false
	}
	if p.busy && it.kind != kCont && it.kind != kEnd {
		// the solver is at work
		p.send(it.b, true)
		p.refused(true)
		return true
	}
	if !p.busy && (it.kind == kCont || it.kind == kEnd) {
		p.answers()
		p.send(it.b, true)
		p.refused(true)
		return true
	}
	switch it.kind {
	case kAdd:
		p.cs = append(p.cs, it.cs...)
		for _, c := range it.cs {
			p.note(c...)
		}
		p.since = true
		p.send(it.b, !p.pipe)
	case kAssume:
		p.as = append(p.as, it.as...)
		p.note(it.as...)
		p.since = true
		p.send(it.b, !p.pipe)
	case kReset:
		p.cs, p.as, p.used, p.any, p.since, p.maxV, p.vague = nil, nil, nil, false, false, 0, false
		p.send(it.b, !p.pipe)
	case kPlain:
		p.vague = true
		p.send(it.b, !p.pipe)
	case kSolve, kCont, kEnd:
		p.send(it.b, false)
		p.answers()
		if it.kind == kSolve {
			p.used, p.as = p.as, nil
			p.any, p.since, p.vague = true, false, false
		}
		v := p.get()
		want := crisp.Sat
		if set(p.cs, p.used...).Empty() {
			want = crisp.Unsat
		}
		switch {
		case v == op(crisp.Unknown) && it.kind != kEnd:
			p.busy = true
			p.res = 0
			inc("unknown")
		case v == op(crisp.End) && it.kind == kEnd:
			p.busy = false
			p.res = 0
			inc("stopped")
		default:
			failIf(v != op(want), "%s%s answered, should be %s", p.where, crisp.ProtoPoint(v), want)
			p.busy = false
			p.res = 1
			if want == crisp.Unsat {
				p.res = -1
			}
			inc("solved")
		}
	case kExt, kModel, kModelFor, kFailed, kFailedFor:
		need := 1
		code := crisp.ErrNotSat
		if it.kind == kFailed || it.kind == kFailedFor {
			need = -1
			code = crisp.ErrNotUnsat
		}
		switch {
		case it.kind == kExt:
		case p.vague:
			p.answers()
			return true // nothing said about this
		case p.any && !p.since && p.res == need:
		case p.since && p.any:
			p.answers()
			p.send(it.b, true)
			p.refused(false, crisp.ErrOutOfOrder)
			return true
		case p.any:
			p.answers()
			p.send(it.b, true)
			p.refused(false, code)
			return true
		default:
			p.answers()
			p.send(it.b, true)
			p.refused(false, crisp.ErrOutOfOrder, code)
			return true
		}
		p.exp = append(p.exp, expect{it, set(p.cs, p.used...), p.used, p.maxV})
		p.send(it.b, false)
		if !p.pipe {
			p.answers()
		}
	}
	return false
}

// good runs a session that must work.
func goodPeer(where string) {
	p := &peer{where: where}
	p.connect()
	p.good()
}

func (p *peer) good() {
	for _, n := range []string{"add -2|-40|3", "assume 40 1", "solve", "modelfor 40 -1 77 -77", "add 1, -1|2", "assume -2", "solve", "failed", "quit"} {
		for i := range items {
			if items[i].name == n {
				p.do(&items[i])
				for p.busy {
					p.do(&items[8])
				}
			}
		}
	}
	p.c.Close()
}

// runPeer runs a peer sending items, with another session open all the time
// and one afterwards.
func runPeer(script []int32, pipe bool, chunk int) func() {
	return func() {
		calm = true
		vsched.Fixed(true)
		s := startCrisp(2, chunk)
		b := &peer{where: "session opened before: "}
		b.connect()
		b.do(&items[1])
		settle()
		vsched.Fixed(false)
		p := &peer{pipe: pipe}
		p.connect()
		over := false
		for i, o := range script {
			p.where = fmt.Sprintf("item %d (%s): ", i+1, items[o].name)
			if p.do(&items[o]) {
				over = true
				break
			}
		}
		if !over {
			p.answers()
		}
		p.c.Close()
		settle()
		vsched.Fixed(true)
		b.cs, b.since, b.maxV = nil, false, 0
		b.cs = append(b.cs, items[1].cs...)
		b.note(items[1].cs[0]...)
		b.good()
		settle()
		goodPeer("session opened after: ")
		stopCrisp(s, 2)
	}
}

func itemScript(c []int32) string {
	var n []string
	for _, o := range c {
		n = append(n, items[o].name)
	}
	return strings.Join(n, "; ")
}

// wellKnown sessions, cut at every byte.
var cutSessions = [][]string{
	{"add 1, -1|2", "assume 40 1", "solve", "model", "modelfor 40 -1 77 -77", "ext", "reset", "add -2|-40|3", "solve", "quit"},
	{"key", "add 1, -1|2", "assume -2", "solve", "failed", "failedfor 1 7 -2 40", "quit"},
	{"add empty", "solve", "failed", "assume nothing", "solve", "model"},
}

func itemsNamed(ns []string) (r []int32) {
	for _, n := range ns {
		k := len(r)
		for i := range items {
			if items[i].name == n {
				r = append(r, int32(i))
			}
		}
		if len(r) == k {
			panic(n)
		}
	}
	return
}

// runCut runs a session whose connection ends after some bytes.
func runCut(script []int32, up bool, after, chunk int, abrupt bool) func() {
	return func() {
		calm = true
		vsched.Fixed(true)
		s := startCrisp(2, chunk)
		vsched.Fixed(false)
		c, e := vnet.Dial("tcp", crispAddr)
		failIf(e != nil, "dial: %v", e)
		l := vnet.Opened[len(vnet.Opened)-1]
		rd := vsched.NewChan[int](1)
		vsched.Named("reader", func() {
			b := make([]byte, 100)
			for {
				if _, e := c.Read(b); e != nil {
					break
				}
			}
			rd.Send(1)
		})
		vsched.Quiesce()
		if abrupt {
			if up {
				l.CutUp(after)
			} else {
				l.CutDown(after)
			}
		}
		n := 0
	out:
		for _, o := range script {
			b := items[o].b
			if up && !abrupt && n+len(b) >= after {
				c.Write(b[:after-n])
				break out
			}
			n += len(b)
			if _, e := c.Write(b); e != nil {
				break
			}
			if items[o].kind != kAdd && items[o].kind != kAssume {
				vsched.Quiesce() // the answers are read by the reader
			}
		}
		c.Close()
		rd.Recv()
		settle()
		vsched.Fixed(true)
		goodPeer("session opened after: ")
		goodPeer("another one: ")
		stopCrisp(s, 2)
	}
}

// runAbandon leaves a solve that takes long.
func runAbandon(how int32) func() {
	return func() {
		calm = true
		vsched.Fixed(true)
		s := startCrisp(2, 0)
		vsched.Fixed(false)
		nv, cs := sat.Pigeons(5, 4)
		_ = nv
		p := &peer{}
		p.connect()
		vs := []uint32{op(crisp.Add)}
		for _, c := range cs {
			vs = append(vs, u(c...)...)
			vs = append(vs, 0)
		}
		vs = append(vs, op(crisp.End), op(crisp.Solve))
		p.c.Write(msg(vs...))
		v := p.get()
		if v != op(crisp.Unknown) {
			failIf(v != op(crisp.Unsat), "%s answered, should be unsat", crisp.ProtoPoint(v))
			p.c.Write(opl(crisp.Quit))
			inc("solved")
		} else {
			switch how {
			case 1:
				p.c.Write(opl(crisp.Quit))
			case 2:
				p.c.Write(opl(crisp.Model))
			case 3:
				p.c.Write([]byte{0xff})
			}
			inc("abandoned")
		}
		p.c.Close()
		n := vsched.Quiesce()
		vsched.Fixed(true)
		if v == op(crisp.Unknown) {
			failIf(n > 100, "the solver goes on (%d steps) after its client has left", n)
		}
		goodPeer("session opened after: ")
		goodPeer("another one: ")
		stopCrisp(s, 2)
	}
}

func tuples(n, k int, yield func(c []int32) bool) bool {
	c := make([]int32, n)
	for {
		if !yield(append([]int32(nil), c...)) {
			return false
		}
		i := n - 1
		for i >= 0 && int(c[i]) == k-1 {
			c[i] = 0
			i--
		}
		if i < 0 {
			return true
		}
		c[i]++
	}
}

// runRaw sends bytes that need not make sense.
func runRaw(b []byte) func() {
	return func() {
		calm = true
		vsched.Fixed(true)
		s := startCrisp(2, 0)
		o := &peer{where: "session opened before: "}
		o.connect()
		o.do(&items[1])
		settle()
		vsched.Fixed(false)
		c, e := vnet.Dial("tcp", crispAddr)
		failIf(e != nil, "dial: %v", e)
		rd := vsched.NewChan[int](1)
		vsched.Named("reader", func() {
			b := make([]byte, 600)
			n := 0
			for {
				k, e := c.Read(b)
				n += k
				failIf(n > 2000, "endless answers")
				if e != nil {
					break
				}
			}
			rd.Send(1)
		})
		c.Write(b)
		vsched.Quiesce()
		c.Close()
		rd.Recv()
		settle()
		vsched.Fixed(true)
		o.good()
		settle()
		goodPeer("session opened after: ")
		stopCrisp(s, 2)
	}
}

func c24() *eng.Prop {
	sess := &eng.Part{
		Name: "items",
		Desc: "every sequence of operations, good and bad, up to a length (quick 3, thorough 4), sent one by one or as much as possible at once, all schedules; every answer against a model of the protocol; a session opened before and one opened after work",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			n := t.Pick(3, 4)
			enumItems(n, all32(len(items)), func(c []int32) bool {
				for m := int32(0); m < 3; m++ {
					if m > 0 && len(c) < 2 || m == 2 && len(c) > 2 {
						continue
					}
					if !yield(append([]int32{m}, c...)) {
						return false
					}
				}
				return true
			})
		},
		Run: func(c []int32, cov *eng.Cov) error {
			return exploreCrisp(itemScript(c[1:]), runPeer(c[1:], c[0] >= 1, int(c[0])/2), 20000, 0, cov)
		},
		Show:    func(c []int32) string { return fmt.Sprintf("mode %d: %s", c[0], itemScript(c[1:])) },
		Hang:    time.Minute,
		Dynamic: true,
	}
	few := itemsNamed([]string{"add 1, -1|2", "assume -2", "assume 40 1", "solve", "continue", "end", "model", "modelfor 40 -1 77 -77", "failed", "failedfor 1 7 -2 40", "reset", "ext"})
	long := &eng.Part{
		Name: "flow",
		Desc: "longer sequences (quick 4, thorough 6) over 12 operations, sent one by one and as much as possible at once",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			n := t.Pick(4, 6)
			enumItems(n, few, func(c []int32) bool {
				if len(c) < 3 {
					return true
				}
				for m := int32(0); m < 2; m++ {
					if !yield(append([]int32{m}, c...)) {
						return false
					}
				}
				return true
			})
		},
		Run: sess.Run, Show: sess.Show, Hang: sess.Hang, Dynamic: true,
	}
	cut := &eng.Part{
		Name: "cut",
		Desc: "three sessions whose connection ends after every number of bytes in either direction, orderly or not; the next two sessions work",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for k := range cutSessions {
				n := 0
				for _, o := range itemsNamed(cutSessions[k]) {
					n += len(items[o].b)
				}
				for mode := int32(0); mode < 3; mode++ {
					for i := 0; i <= n; i++ {
						if mode == 2 && i > 60 {
							break
						}
						for chunk := int32(0); chunk < 2; chunk++ {
							if !yield([]int32{int32(k), mode, int32(i), chunk}) {
								return
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			f := runCut(itemsNamed(cutSessions[c[0]]), c[1] < 2, int(c[2]), int(c[3]), c[1] > 0)
			return exploreCrisp(fmt.Sprint(c), f, 20000, 0, cov)
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("session %d %s after %d bytes, chunk %d", c[0], []string{"leaves", "is cut", "cannot be answered"}[c[1]], c[2], c[3])
		},
		Hang: time.Minute, Dynamic: true,
	}
	abandon := &eng.Part{
		Name: "abandon",
		Desc: "a peer leaves during a solve, in four ways, all schedules: the solver stops",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for h := int32(0); h < 4; h++ {
				if !yield([]int32{h}) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			return exploreCrisp(fmt.Sprint(c), runAbandon(c[0]), 200000, 2000, cov)
		},
		Hang: time.Minute,
	}
	words := []uint32{0, 1, 2, 3, 9, 81, 155, op(crisp.MinProto) + 40, 0xffffffff}
	for _, o := range []crisp.ProtoPoint{crisp.Key, crisp.Add, crisp.Assume, crisp.Solve, crisp.Continue, crisp.Model, crisp.ModelFor, crisp.Failed, crisp.FailedFor, crisp.Reset, crisp.Quit, crisp.End, crisp.Sat, crisp.Unsat, crisp.Unknown, crisp.Ext, crisp.Error} {
		words = append(words, op(o))
	}
	raw := func(name, desc string, enum func(t eng.Tier, yield func(c []int32) bool), bytes func(c []int32) []byte) *eng.Part {
		return &eng.Part{
			Name: name, Desc: desc, Enum: enum,
			Run: func(c []int32, cov *eng.Cov) error {
				return exploreCrisp(fmt.Sprint(c), runRaw(bytes(c)), 20000, 0, cov)
			},
			Show: func(c []int32) string { return fmt.Sprintf("%x", bytes(c)) },
			Hang: time.Minute, Dynamic: true,
		}
	}
	wordsPart := raw("words", "every sequence of up to 3 (thorough 4) of 26 numbers: literals, all operations, answers, undefined operations; then the peer leaves; the other sessions work",
		func(t eng.Tier, yield func(c []int32) bool) {
			for n := 1; n <= t.Pick(3, 4); n++ {
				if !tuples(n, len(words), yield) {
					return
				}
			}
		}, func(c []int32) []byte {
			var b []byte
			for _, x := range c {
				b = append(b, enc(words[x])...)
			}
			return b
		})
	bytesPart := raw("bytes", "every string of 1 and 2 bytes, and (thorough) of 3 to 6 bytes out of 8; then the peer leaves; the other sessions work",
		func(t eng.Tier, yield func(c []int32) bool) {
			if !tuples(1, 256, yield) || !tuples(2, 256, yield) || t == eng.Quick {
				return
			}
			for n := 3; n <= 6; n++ {
				if !tuples(n, 8, yield) {
					return
				}
			}
		}, func(c []int32) []byte {
			var b []byte
			for _, x := range c {
				if len(c) > 2 {
					x = []int32{0x00, 0x01, 0x04, 0x7f, 0x80, 0x84, 0xff, 0xfe}[x]
				}
				b = append(b, byte(x))
			}
			return b
		})
	life := lifePart()
	return &eng.Prop{
		ID:    "C24",
		Level: "implementation",
		Rule:  "real server and solver under the controlled scheduler, a scripted peer",
		Parts: []*eng.Part{sess, long, cut, abandon, wordsPart, bytesPart, life, addrPart(),
			races(sess, "up to 2 operations, thorough 3", func(t eng.Tier, c []int32) bool { return len(c)-1 <= t.Pick(2, 3) }),
			races(cut, "quick: the first session", func(t eng.Tier, c []int32) bool { return t == eng.Thorough || c[0] == 0 }),
			races(life, "up to 4 steps, thorough 6", func(t eng.Tier, c []int32) bool { return len(c)-1 <= t.Pick(4, 6) }),
			races(abandon, "all", func(t eng.Tier, c []int32) bool { return true }),
		},
	}
}

func all32(n int) (r []int32) {
	for i := 0; i < n; i++ {
		r = append(r, int32(i))
	}
	return
}

// enumItems enumerates sequences; what follows an item that ends the session
// is left out.
func enumItems(n int, ops []int32, yield func(c []int32) bool) {
	var c []int32
	var rec func(d int) bool
	rec = func(d int) bool {
		if d == 0 {
			return yield(append([]int32(nil), c...))
		}
		for _, o := range ops {
			k := items[o].kind
			if d > 1 && (k == kBad || k == kOver || k == kQuit || k == kPart) {
				continue
			}
			c = append(c, o)
			if !rec(d - 1) {
				return false
			}
			c = c[:len(c)-1]
		}
		return true
	}
	for k := 1; k <= n; k++ {
		if !rec(k) {
			return
		}
	}
}

var _ = io.EOF
