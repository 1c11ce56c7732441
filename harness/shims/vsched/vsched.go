//go:build go1.23

// Package vsched is a controlled scheduler for instrumented builds.
//
// Goroutines started with Go take turns: exactly one runs at a time, and it
// gives up its turn only inside the operations of this package (and of the
// stand-ins for time, sync and sync/atomic built on it).  Every such visible
// operation is a scheduling point: the explorer decides who goes on, which
// ready select case is taken, and when timers fire.  One run of a program is
// determined by the sequence of those decisions; Explore enumerates all of
// them up to a bound on preemptions.
//
// Without a running exploration, operations that can proceed do so directly,
// and others panic.
package vsched

import (
	"fmt"
	"math/bits"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

type state int

const (
	runnable state = iota
	parked
	finished
)

// clock is a vector clock over processes (goroutines and timers).
type clock []int32

//go:norace
func (c *clock) join(d clock) {
	for len(*c) < len(d) {
		*c = append(*c, 0)
	}
	for i, x := range d {
		if x > (*c)[i] {
			(*c)[i] = x
		}
	}
}

//go:norace
func (c clock) at(i int) int32 {
	if i < len(c) {
		return c[i]
	}
	return 0
}

//go:norace
func (c *clock) set(i int, v int32) {
	for len(*c) <= i {
		*c = append(*c, 0)
	}
	(*c)[i] = v
}

// gor is a goroutine.
type gor struct {
	pid     int
	name    string
	baton   chan struct{}
	ended   chan struct{}
	st      state
	why     string // what it is parked on
	ready   bool   // stopped in front of a visible operation (else: in local code)
	objs    []any  // the objects of that operation
	hit     int    // set by the one who wakes it: which case
	drain   bool
	ck      clock
	patient bool // polls in vain only Opt.Polls times while others can go on
	polls   int
	idle    bool // parked in a poll that gives up when nothing else can go on
}

// timer is a one-shot timer or a ticker.
type timer struct {
	pid    int
	when   int64
	every  int64 // 0 for one-shot
	objs   []any
	fire   func()
	useful func() bool // tickers: whether firing changes anything
	live   bool
	ck     clock
	budget int
}

// tr is something that can happen next: a goroutine performs its pending
// operation, or a timer fires.
type tr struct {
	pid  int
	objs []any
	g    *gor
	t    *timer
}

// node is a decision in the current run.
type node struct {
	data  bool // choice between ready select cases
	fixed bool // see Fixed
	n, i  int
	en    pset // what could happen
	cur   int  // pid chosen
	back  pset // pids to explore here
	done  pset
	sleep pset // at entry: exploring these is redundant
}

// pset is a set of process ids.
type pset uint64

//go:norace
func bit(p int) pset {
	if p >= 64 {
		panic("vsched: too many goroutines and timers in one run")
	}
	return 1 << uint(p)
}

//go:norace
func (s pset) has(p int) bool { return s&bit(p) != 0 }

// table maps objects (pointers) to their last operations.
type table struct {
	es []entry
	n  int
}

type entry struct {
	o  any
	l  *last   // the last operation that was not only a reading
	rs []*last // readings since
}

// reading is an object that is only read: readings are independent of each
// other.
type reading struct{ o any }

//go:norace
func base(o any) (b any, read bool) {
	if r, ok := o.(reading); ok {
		return r.o, true
	}
	return o, false
}

//go:norace
func (t *table) at(o any) *entry {
	if len(t.es) == 0 {
		t.es = make([]entry, 64)
	}
	p := uint64((*[2]uintptr)(unsafe.Pointer(&o))[1])
	for h := (p >> 3) * 0x9E3779B97F4A7C15 >> 20; ; h++ {
		e := &t.es[h&uint64(len(t.es)-1)]
		if e.o == nil || e.o == o {
			return e
		}
	}
}

//go:norace
func (t *table) get(o any) *entry { return t.at(o) }

//go:norace
func (t *table) set(o any, l *last) {
	o, read := base(o)
	e := t.at(o)
	if e.o == nil {
		if t.n++; 2*t.n > len(t.es) {
			old := t.es
			t.es = make([]entry, 2*len(old))
			for i := range old {
				if old[i].o != nil {
					*t.at(old[i].o) = old[i]
				}
			}
			e = t.at(o)
		}
		e.o = o
	}
	if read {
		e.rs = append(e.rs, l)
	} else {
		e.l = l
		e.rs = nil
	}
}

type last struct {
	depth int
	pid   int
	step  int32
	ck    clock
}

type sched struct {
	gs      []*gor
	cur     *gor
	timers  []*timer
	npid    int
	now     int64
	fin     chan struct{}
	daemons bool
	kill    bool
	pruned  bool
	fail    string
	steps   int
	limit   int
	ticks   int // how often a ticker may fire while others can go on
	atomic  int
	enb     []tr
	fixed   bool
	quiet   *gor // the goroutine waiting for all others to park
	qsteps  int
	trace   bool
	log     []string

	ex     *explorer
	depth  int
	sleep  pset
	objs   table
	hist   []*last // what happened so far
	free   []*last
	firing bool // a timer acts, not the current goroutine
	races0 int
	firer  *timer
	ck     *clock // of the process making a transition
	canon  uint64 // identifies the partial order of the run
}

// explorer is the depth-first search over decisions.
type explorer struct {
	stack []*node
	por   bool // partial order reduction
	polls int
}

var s *sched

// Managed tells whether a controlled run is in progress.
//
//go:norace
func Managed() bool { return s != nil }

//go:norace
func (s *sched) note(f string, a ...interface{}) {
	if s.trace {
		nm := "-"
		if s.cur != nil {
			nm = s.cur.name
		}
		s.log = append(s.log, nm+": "+fmt.Sprintf(f, a...))
	}
}

// Note adds a line to the trace of the run.
//
//go:norace
func Note(f string, a ...interface{}) {
	if s != nil {
		s.note(f, a...)
	}
}

// end ends the run; does not return.
//
//go:norace
func (s *sched) end() {
	s.noteRaces()
	s.kill = true
	close(s.fin)
	runtime.Goexit()
}

// noteRaces lets a run fail in which the race detector found a race.
//
//go:norace
func (s *sched) noteRaces() {
	if Race && s.fail == "" && raceErrors() > s.races0 {
		s.fail = "data race (see the report of the race detector)"
	}
}

// setFail ends the run with a failure; does not return.
//
//go:norace
func (s *sched) setFail(f string, a ...interface{}) {
	if s.fail == "" {
		s.fail = fmt.Sprintf(f, a...)
		s.note("FAIL %s", s.fail)
	}
	s.end()
}

// Fail ends the current run with a failure.
//
//go:norace
func Fail(f string, a ...interface{}) {
	if s == nil {
		panic(fmt.Sprintf(f, a...))
	}
	s.setFail(f, a...)
}

// pick chooses between n equally possible outcomes of an operation.
//
//go:norace
func (s *sched) pick(n int) int {
	if n <= 1 {
		return 0
	}
	if s.fixed {
		return 0
	}
	ex := s.ex
	if s.depth == len(ex.stack) {
		ex.stack = append(ex.stack, &node{data: true, n: n})
	}
	nd := ex.stack[s.depth]
	if !nd.data || nd.n != n {
		s.setFail("vsched: run is not deterministic (decision %d)", s.depth)
	}
	s.depth++
	h := uint64(nd.i + 3)
	for _, x := range *s.ck {
		h = (h ^ uint64(x+7)) * 1099511628211
	}
	s.canon += h * h
	return nd.i
}

// decide chooses what happens next.
//
//go:norace
func (s *sched) decide(en []tr) tr {
	ex := s.ex
	if s.depth == len(ex.stack) {
		nd := &node{sleep: s.sleep, cur: -1, fixed: s.fixed}
		for _, e := range en {
			nd.en |= bit(e.pid)
			if nd.sleep.has(e.pid) {
				continue
			}
			if ex.por || nd.fixed {
				if nd.cur < 0 {
					nd.back |= bit(e.pid)
				}
			} else {
				nd.back |= bit(e.pid)
			}
			if nd.cur < 0 {
				nd.cur = e.pid
			}
		}
		if nd.cur < 0 {
			// everything that can happen was explored in another order
			for _, e := range en {
				e.objs = expand(e.objs)
				s.races(e, false)
			}
			s.pruned = true
			s.end()
		}
		ex.stack = append(ex.stack, nd)
	}
	nd := ex.stack[s.depth]
	if nd.data {
		s.setFail("vsched: run is not deterministic (decision %d)", s.depth)
	}
	var ch tr
	var all pset
	for _, e := range en {
		all |= bit(e.pid)
		if e.pid == nd.cur {
			ch = e
		}
	}
	if all != nd.en {
		s.setFail("vsched: run is not deterministic (decision %d)", s.depth)
	}
	// what stays redundant after this step
	var nz pset
	ch.objs = expand(ch.objs)
	if ex.por && nd.sleep|nd.done != 0 {
		for _, e := range en {
			if (nd.sleep | nd.done).has(e.pid) && e.pid != ch.pid && !dependent(expand(e.objs), ch.objs) {
				nz |= bit(e.pid)
			}
		}
	}
	s.sleep = nz
	s.races(ch, true)
	s.depth++
	return ch
}

//go:norace
func dependent(a, b []any) bool {
	for _, x := range a {
		x, rx := base(x)
		for _, y := range b {
			if y, ry := base(y); x == y && !(rx && ry) {
				return true
			}
		}
	}
	return false
}

// races finds the last operations on the same objects that this one could
// have come before, and marks where to try that; with do, the operation takes
// place.
//
//go:norace
func (s *sched) races(e tr, do bool) {
	var ck *clock
	if e.g != nil {
		ck = &e.g.ck
	} else {
		ck = &e.t.ck
	}
	var now clock // after the operation
	now.join(*ck)
	for _, o := range e.objs {
		o, read := base(o)
		en := s.objs.get(o)
		if en.l != nil {
			now.join(en.l.ck)
		}
		if !read {
			for _, l := range en.rs {
				now.join(l.ck)
			}
		}
	}
	if s.ex.por {
		for _, o := range e.objs {
			o, read := base(o)
			en := s.objs.get(o)
			s.race(e.pid, *ck, now, en.l)
			if !read {
				for _, l := range en.rs {
					s.race(e.pid, *ck, now, l)
				}
			}
		}
	}
	if !do {
		return
	}
	st := now.at(e.pid) + 1
	now.set(e.pid, st)
	ck.join(now)
	l := &last{s.depth, e.pid, st, now}
	s.hist = append(s.hist, l)
	for _, o := range e.objs {
		s.objs.set(o, l)
	}
	s.ck = ck
	if e.t != nil {
		return // seen in the clocks of those it affects
	}
	h := uint64(1469598103934665603)
	mix := func(x int) { h = (h ^ uint64(x+7)) * 1099511628211 }
	mix(e.pid)
	for i, x := range *ck {
		if x != 0 {
			mix(i)
			mix(int(x))
		}
	}
	s.canon += h * h
}

// race makes sure that an order is tried in which the operation of p, which
// comes after everything in now, happens without l before it, unless p had to
// wait for l anyway.  What can then happen first, instead of l, are the
// operations since l that did not need it and of which none needs another.
//
//go:norace
func (s *sched) race(p int, ck, now clock, l *last) {
	if l == nil || l.pid == p || ck.at(l.pid) >= l.step {
		return
	}
	nd := s.ex.stack[l.depth]
	if nd.data || nd.fixed {
		return
	}
	var first, seen pset
	v := s.free[:0]
	for i := len(s.hist) - 1; i >= 0 && s.hist[i].depth > l.depth; i-- {
		if m := s.hist[i]; m.ck.at(l.pid) < l.step {
			v = append(v, m)
		}
	}
	s.free = v
	for i := len(v) - 1; i >= 0; i-- {
		m := v[i]
		if seen.has(m.pid) {
			continue
		}
		seen |= bit(m.pid)
		if free(v[i+1:], m.ck) {
			first |= bit(m.pid)
		}
	}
	if !seen.has(p) && free(v, now) {
		first |= bit(p)
	}
	switch {
	case first&nd.en == 0:
		nd.back |= nd.en
	case first&nd.back != 0:
	case first.has(p) && nd.en.has(p):
		nd.back |= bit(p)
	default:
		nd.back |= first & nd.en & -(first & nd.en)
	}
}

// free tells that what comes after everything in ck comes after none of v.
//
//go:norace
func free(v []*last, ck clock) bool {
	for _, m := range v {
		if ck.at(m.pid) >= m.step {
			return false
		}
	}
	return true
}

// advance moves to the next unexplored combination of decisions.
//
//go:norace
func (ex *explorer) advance() bool {
	for len(ex.stack) > 0 {
		nd := ex.stack[len(ex.stack)-1]
		if nd.data {
			if nd.i+1 < nd.n {
				nd.i++
				return true
			}
		} else {
			nd.done |= bit(nd.cur)
			if b := nd.back &^ nd.done &^ nd.sleep & nd.en; b != 0 {
				nd.cur = bits.TrailingZeros64(uint64(b))
				return true
			}
		}
		ex.stack = ex.stack[:len(ex.stack)-1]
	}
	return false
}

// next lets something happen; called by the goroutine that has the turn when
// it stops in front of an operation, parks or ends.
//
//go:norace
func (s *sched) next() {
	me := s.cur
	for {
		// local code first: it concerns nobody else
		var g *gor
		for _, o := range s.gs {
			if o.st == runnable && !o.ready {
				g = o
				break
			}
		}
		if g == nil {
			en := s.enb[:0]
			if me.st == runnable {
				en = append(en, tr{pid: me.pid, objs: me.objs, g: me})
			}
			for _, o := range s.gs {
				if o != me && o.st == runnable {
					en = append(en, tr{pid: o.pid, objs: o.objs, g: o})
				}
			}
			busy := len(en) > 0
			if s.quiet == nil {
				for _, t := range s.timers {
					if t.live && (t.every == 0 || (t.useful() && (!busy || t.budget > 0))) {
						en = append(en, tr{pid: t.pid, objs: t.objs, t: t})
					}
				}
			}
			s.enb = en
			if len(en) == 0 {
				w := s.quiet
				s.quiet = nil
				if w == nil {
					for _, g := range s.gs {
						if g.st == parked && g.idle {
							w = g
							w.hit = -1
							break
						}
					}
				}
				if w == nil {
					w = s.drainer()
				}
				if w == nil {
					s.setFail("deadlock: %s", s.blocked())
				}
				w.drain = false
				w.st = runnable
				w.ready = false
				for _, o := range s.gs {
					w.ck.join(o.ck)
				}
				for _, t := range s.timers {
					w.ck.join(t.ck)
				}
				continue
			}
			e := s.decide(en)
			if e.t != nil {
				s.cur = nil
				s.fireTimer(e.t, busy)
				s.cur = me
				continue
			}
			g = e.g
			s.steps++
			if s.quiet != nil {
				s.qsteps++
			}
			if s.steps > s.limit {
				s.setFail("no end after %d steps (blocked: %s)", s.limit, s.blocked())
			}
		} else {
			s.ck = &g.ck
		}
		g.ready = false
		if g == me {
			return
		}
		s.cur = g
		hide()
		g.baton <- struct{}{}
		if me.st == finished {
			unhide()
			return
		}
		<-me.baton
		unhide()
		if s.kill {
			runtime.Goexit()
		}
		return
	}
}

//go:norace
func (s *sched) fireTimer(t *timer, busy bool) {
	if t.when > s.now {
		s.now = t.when
	}
	s.note("timer %d fires", t.pid)
	if t.every != 0 {
		if busy {
			t.budget--
		}
		t.when = s.now + t.every
	} else {
		t.live = false
	}
	s.firing = true
	s.firer = t
	t.fire()
	s.firing = false
	k := s.timers[:0]
	for _, u := range s.timers {
		if u.live {
			k = append(k, u)
		}
	}
	s.timers = k
}

//go:norace
func (s *sched) drainer() *gor {
	for _, g := range s.gs {
		if g.st == parked && g.drain {
			return g
		}
	}
	return nil
}

//go:norace
func (s *sched) blocked() string {
	var b []string
	for _, g := range s.gs {
		if g.st == parked {
			b = append(b, fmt.Sprintf("%s waits in %s", g.name, g.why))
		}
	}
	return strings.Join(b, "; ")
}

// Point is a scheduling point in front of an operation on some objects.
//
//go:norace
func Point(objs ...any) {
	if s == nil || s.kill || s.atomic > 0 {
		return
	}
	g := s.cur
	g.ready = true
	g.objs = objs
	s.next()
}

// PointRead is a scheduling point in front of reading an object.
//
//go:norace
func PointRead(o any) {
	if s == nil || s.kill || s.atomic > 0 {
		return
	}
	Point(reading{o})
}

// park blocks the current goroutine until someone wakes it.
//
//go:norace
func park(why string) {
	if s == nil {
		panic("vsched: " + why + " would block outside a run")
	}
	if s.kill {
		return
	}
	g := s.cur
	g.st = parked
	g.why = why
	s.note("parks in %s", why)
	at := s.atomic
	s.atomic = 0
	s.next()
	s.atomic = at
}

//go:norace
func wake(g *gor) {
	g.st = runnable
	g.ready = false
	g.ck.join(*s.ck)
}

// Go starts a goroutine.
//
//go:norace
func Go(f func()) {
	if s == nil {
		go f()
		return
	}
	if s.kill {
		return
	}
	s.spawn(f, "")
}

// Named starts a goroutine with a name.
//
//go:norace
func Named(name string, f func()) { s.spawn(f, name) }

//go:norace
func (s *sched) spawn(f func(), name string) *gor {
	g := &gor{pid: s.npid, baton: make(chan struct{}), st: runnable, ended: make(chan struct{})}
	s.npid++
	if s.ck != nil {
		g.ck = append(clock(nil), *s.ck...)
	}
	g.name = name
	if name == "" {
		g.name = "g" + strconv.Itoa(g.pid)
	}
	s.gs = append(s.gs, g)
	s.note("starts %s", g.name)
	sc := s
	var from *timer
	if sc.firing {
		from = sc.firer
	} else {
		Release(unsafe.Pointer(g))
	}
	launch(func() {
		defer close(g.ended)
		hide()
		<-g.baton
		unhide()
		if from != nil {
			Acquire(unsafe.Pointer(from))
		} else {
			Acquire(unsafe.Pointer(g))
		}
		if sc.kill {
			return
		}
		normal := false
		defer func() {
			if sc.kill {
				recover()
				g.st = finished
				return
			}
			if !normal {
				r := recover()
				g.st = finished
				if r == nil {
					// runtime.Goexit in the program: like a normal end
					sc.fail = "goroutine ended by Goexit"
				} else {
					sc.fail = fmt.Sprintf("panic in %s: %v\n%s", g.name, r, stack())
				}
				sc.kill = true
				close(sc.fin)
				return
			}
		}()
		f()
		if name != "" {
			Release(unsafe.Pointer(&g.ended))
		}
		normal = true
		g.st = finished
		sc.note("ends")
		all := true
		for _, o := range sc.gs {
			if o.st != finished && !(sc.daemons && o.st == parked && !o.drain && !o.idle && o != sc.quiet) {
				all = false
			}
		}
		if all {
			for _, t := range sc.timers {
				// could have fired earlier
				if t.live && (t.every == 0 || t.budget > 0) {
					sc.races(tr{pid: t.pid, objs: expand(t.objs), t: t}, false)
				}
			}
			sc.noteRaces()
			sc.kill = true
			close(sc.fin)
			return
		}
		sc.next()
	})
	return g
}

//go:norace
func stack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "runtime/") || strings.Contains(l, "vsched") {
			continue
		}
		out = append(out, l)
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Atomic runs f without scheduling points.
//
//go:norace
func Atomic(f func()) {
	if s == nil {
		f()
		return
	}
	sc := s
	sc.atomic++
	f()
	sc.atomic--
}

// Quiesce lets all other goroutines run until none can go on without a timer
// and returns how many steps they made.
//
//go:norace
func Quiesce() int {
	g := s.cur
	g.st = parked
	g.why = "quiesce"
	s.quiet = g
	s.qsteps = 0
	s.next()
	return s.qsteps
}

// Drain lets all other goroutines run until they have ended or are stuck for
// good, and describes those that are stuck.
//
//go:norace
func Drain() string {
	g := s.cur
	live := false
	for _, o := range s.gs {
		if o != g && o.st != finished {
			live = true
		}
	}
	if live {
		g.st = parked
		g.why = "drain"
		g.drain = true
		s.next()
	}
	// only the goroutines of the harness count as waited for
	for _, o := range s.gs {
		if o != g && o.st == finished {
			Acquire(unsafe.Pointer(&o.ended))
		}
	}
	var b []string
	for _, o := range s.gs {
		if o != g && o.st == parked {
			b = append(b, fmt.Sprintf("%s waits in %s", o.name, o.why))
		}
	}
	return strings.Join(b, "; ")
}

// Mark is a moment in the life of a goroutine.
type Mark clock

// Stamp is the present moment.
//
//go:norace
func Stamp() Mark {
	if s == nil || s.cur == nil {
		return nil
	}
	return append(Mark(nil), s.cur.ck...)
}

// After records that what the current goroutine does from here on needed m.
//
//go:norace
func After(m Mark) {
	if s != nil && s.cur != nil {
		s.cur.ck.join(clock(m))
	}
}

// Fixed says whether from here on just one schedule is run, for preparations
// and follow-ups whose interleavings are not in question.
//
//go:norace
func Fixed(on bool) {
	if s != nil {
		s.fixed = on
	}
}

// Daemons allows goroutines that are stuck when the last of the others ends.
//
//go:norace
func Daemons() { s.daemons = true }

// Steps returns the number of steps made so far in this run.
//
//go:norace
func Steps() int { return s.steps }

// Res is what an exploration covered.
type Res struct {
	Runs    int
	Pruned  int // runs given up as equivalent to earlier ones
	Steps   int64
	Choices int64
	Capped  bool
	Fail    string
	Trace   []string
	Sched   []int
}

// Opt says how to explore.
type Opt struct {
	Ticks int  // times each ticker may fire while something else can go on
	Limit int  // steps of a run after which it counts as endless
	Max   int  // runs (0: no limit)
	Full  bool // no partial order reduction
	Stop  func() bool
	Polls int             // see Patient
	Set   map[uint64]bool // collects the partial orders seen, if not nil
}

//go:norace
func (ex *explorer) run(f func(), o Opt, trace bool) *sched {
	sc := &sched{ex: ex, fin: make(chan struct{}), ticks: o.Ticks, limit: o.Limit, trace: trace, races0: raceErrors()}
	s = sc
	g := sc.spawn(f, "main")
	sc.cur = g
	sc.ck = &g.ck
	hide()
	g.baton <- struct{}{}
	unhide()
	<-sc.fin
	// end what is left, one by one
	if sc.cur != nil {
		<-sc.cur.ended
	}
	for _, o := range sc.gs {
		select {
		case o.baton <- struct{}{}:
		case <-o.ended:
		}
		<-o.ended
	}
	s = nil
	return sc
}

// Explore runs f under every schedule, up to reordering of independent
// operations, until one fails.
//
//go:norace
func Explore(f func(), o Opt) (r Res) {
	ex := &explorer{por: !o.Full, polls: o.Polls}
	for {
		sc := ex.run(f, o, false)
		r.Steps += int64(sc.steps)
		r.Choices += int64(len(ex.stack))
		if sc.pruned {
			r.Pruned++
		} else {
			r.Runs++
			if o.Set != nil {
				o.Set[sc.canon] = true
			}
		}
		if sc.fail != "" {
			for _, nd := range ex.stack {
				if nd.data {
					r.Sched = append(r.Sched, nd.i)
				} else {
					r.Sched = append(r.Sched, nd.cur)
				}
			}
			st := ex.stack
			s2 := ex.run(f, o, true)
			ex.stack = st
			r.Fail = sc.fail
			if s2.fail != sc.fail && !(Race && s2.fail == "") {
				r.Fail += " (on repetition: " + s2.fail + ")"
			}
			r.Trace = s2.log
			return
		}
		if !ex.advance() {
			return
		}
		if (o.Max > 0 && r.Runs+r.Pruned >= o.Max) || (o.Stop != nil && o.Stop()) {
			r.Capped = true
			return
		}
	}
}

// ---------------------------------------------------------------- channels

type sel struct {
	g    *gor
	done bool
}

type waiter[T any] struct {
	sl  *sel
	idx int
	v   T
	ok  bool
	bad bool   // channel closed under a send
	tm  *timer // the timer that sent
}

// Chan stands in for a channel of T; a nil *Chan is a nil channel.
type Chan[T any] struct {
	buf    []T
	cap    int
	closed bool
	rq, sq []*waiter[T]
	si, ri int    // how often something was put in and taken out of buf
	slots  []byte // what the places in buf synchronise with
	tm     *timer // that sends here
	sels   []*sel // the last select of each goroutine that waited here
}

// with adds to the objects of an operation the selects that wait on its
// channels: who completes a waiting select first decides its outcome.
//
//go:norace
func (c *Chan[T]) with(os []any) []any {
	for _, x := range c.sels {
		os = append(os, x)
	}
	return os
}

//go:norace
func (c *Chan[T]) waits(sl *sel) {
	for i, x := range c.sels {
		if x.g == sl.g {
			c.sels[i] = sl
			return
		}
	}
	c.sels = append(c.sels, sl)
}

// expand lists all objects an operation depends on at this moment.
//
//go:norace
func expand(objs []any) []any {
	r := make([]any, 0, len(objs)+8) // copied one by one: see Race
	for _, o := range objs {
		r = append(r, o)
	}
	for _, o := range objs {
		if c, ok := o.(interface{ with([]any) []any }); ok {
			r = c.with(r)
		}
	}
	return r
}

//go:norace
func NewChan[T any](n int) *Chan[T] {
	c := &Chan[T]{cap: n}
	if Race {
		c.slots = make([]byte, n)
	}
	return c
}

//go:norace
func (c *Chan[T]) timed(t *timer) { c.tm = t }

// put and take order the k-th receive after the k-th send, and the k+cap-th
// send after the k-th receive.
//
//go:norace
func (c *Chan[T]) put() {
	if Race && c.cap > 0 {
		p := unsafe.Pointer(&c.slots[c.si%c.cap])
		c.si++
		Acquire(p)
		Release(p)
	}
}

//go:norace
func (c *Chan[T]) take() {
	if Race && c.cap > 0 {
		p := unsafe.Pointer(&c.slots[c.ri%c.cap])
		c.ri++
		Acquire(p)
		Release(p)
		if c.tm != nil {
			Acquire(unsafe.Pointer(c.tm))
		}
	}
}

// met is called by the goroutine of w when it goes on.
//
//go:norace
func (w *waiter[T]) met() {
	Acquire(unsafe.Pointer(w))
	if w.tm != nil {
		Acquire(unsafe.Pointer(w.tm))
	}
}

// meet orders what the current goroutine and the one of w did before after
// each other's next.
//
//go:norace
func (w *waiter[T]) meet() {
	Acquire(unsafe.Pointer(w))
	Release(unsafe.Pointer(w))
}

//go:norace
func live[T any](q *[]*waiter[T]) *waiter[T] {
	for len(*q) > 0 {
		w := (*q)[0]
		if !w.sl.done {
			return w
		}
		*q = (*q)[1:]
	}
	return nil
}

//go:norace
func (c *Chan[T]) canSend() bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || live(&c.rq) != nil)
}

//go:norace
func (c *Chan[T]) canRecv() bool {
	return c != nil && (c.closed || len(c.buf) > 0 || live(&c.sq) != nil)
}

// doSend sends when canSend.
//
//go:norace
func (c *Chan[T]) doSend(v T) {
	if c.closed {
		panic("send on closed channel")
	}
	if w := live(&c.rq); w != nil {
		c.rq = c.rq[1:]
		w.meet()
		if s != nil && s.firing {
			w.tm = c.tm
		}
		w.v, w.ok = v, true
		w.sl.done = true
		w.sl.g.hit = w.idx
		wake(w.sl.g)
		return
	}
	c.put()
	c.buf = append(c.buf, v)
}

// doRecv receives when canRecv.
//
//go:norace
func (c *Chan[T]) doRecv() (v T, ok bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		nb := make([]T, 0, len(c.buf))
		for _, x := range c.buf[1:] {
			nb = append(nb, x)
		}
		c.buf = nb
		c.take()
		if w := live(&c.sq); w != nil {
			c.sq = c.sq[1:]
			w.meet()
			c.put()
			c.buf = append(c.buf, w.v)
			w.sl.done = true
			w.sl.g.hit = w.idx
			wake(w.sl.g)
		}
		return v, true
	}
	if w := live(&c.sq); w != nil {
		c.sq = c.sq[1:]
		w.meet()
		w.sl.done = true
		w.sl.g.hit = w.idx
		wake(w.sl.g)
		return w.v, true
	}
	Acquire(unsafe.Pointer(&c.closed))
	return v, false
}

//go:norace
func killed() bool { return s != nil && s.kill }

//go:norace
func (c *Chan[T]) Send(v T) {
	if killed() {
		return
	}
	Point(c)
	if c.canSend() {
		if s != nil && s.trace {
			s.note("send %v", fmtv(v))
		}
		c.doSend(v)
		return
	}
	if c == nil {
		park("send on a nil channel")
		return
	}
	w := &waiter[T]{sl: &sel{g: me()}, v: v}
	c.sq = append(c.sq, w)
	Release(unsafe.Pointer(w))
	park("send")
	w.met()
	if w.bad && !killed() {
		panic("send on closed channel")
	}
}

//go:norace
func me() *gor {
	if s == nil {
		panic("vsched: operation would block outside a run")
	}
	return s.cur
}

//go:norace
func fmtv(v interface{}) string {
	x := fmt.Sprintf("%v", v)
	if len(x) > 40 {
		x = x[:40]
	}
	return x
}

//go:norace
func (c *Chan[T]) Recv() T { v, _ := c.Recv2(); return v }

//go:norace
func (c *Chan[T]) Recv2() (v T, ok bool) {
	if killed() {
		return
	}
	Point(c)
	if c.canRecv() {
		v, ok = c.doRecv()
		if s != nil && s.trace {
			s.note("receive %v %v", fmtv(v), ok)
		}
		return
	}
	if c == nil {
		park("receive on a nil channel")
		return
	}
	w := &waiter[T]{sl: &sel{g: me()}}
	c.rq = append(c.rq, w)
	Release(unsafe.Pointer(w))
	park("receive")
	w.met()
	if s != nil && s.trace {
		s.note("receives %v %v", fmtv(w.v), w.ok)
	}
	return w.v, w.ok
}

//go:norace
func (c *Chan[T]) Close() {
	if killed() {
		return
	}
	Point(c)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	if s != nil {
		s.note("close")
	}
	c.closed = true
	Release(unsafe.Pointer(&c.closed))
	for {
		w := live(&c.rq)
		if w == nil {
			break
		}
		Release(unsafe.Pointer(w))
		c.rq = c.rq[1:]
		w.sl.done = true
		w.sl.g.hit = w.idx
		wake(w.sl.g)
	}
	for {
		w := live(&c.sq)
		if w == nil {
			break
		}
		c.sq = c.sq[1:]
		Release(unsafe.Pointer(w))
		w.bad = true
		w.sl.done = true
		w.sl.g.hit = w.idx
		wake(w.sl.g)
	}
}

//go:norace
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	Point(c)
	return len(c.buf)
}

//go:norace
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}

// Case is a case of a select.
type Case interface {
	ready() bool
	do()
	enq(sl *sel, idx int)
	woken()
	obj() any
}

// RC is a receive case.
type RC[T any] struct {
	c  *Chan[T]
	w  *waiter[T]
	v  T
	ok bool
}

//go:norace
func RecvCase[T any](c *Chan[T]) *RC[T] { return &RC[T]{c: c} }

//go:norace
func (r *RC[T]) obj() any {
	if r.c == nil {
		return nil
	}
	return r.c
}

//go:norace
func (r *RC[T]) ready() bool { return r.c.canRecv() }

//go:norace
func (r *RC[T]) do() { r.v, r.ok = r.c.doRecv() }

//go:norace
func (r *RC[T]) enq(sl *sel, idx int) {
	if r.c != nil {
		r.w = &waiter[T]{sl: sl, idx: idx}
		r.c.rq = append(r.c.rq, r.w)
		r.c.waits(sl)
		Release(unsafe.Pointer(r.w))
	}
}

//go:norace
func (r *RC[T]) woken() { r.w.met(); r.v, r.ok = r.w.v, r.w.ok }

//go:norace
func (r *RC[T]) Get() T { return r.v }

//go:norace
func (r *RC[T]) Get2() (T, bool) { return r.v, r.ok }

// SC is a send case.
type SC[T any] struct {
	c *Chan[T]
	w *waiter[T]
	v T
}

//go:norace
func SendCase[T any](c *Chan[T], v T) *SC[T] { return &SC[T]{c: c, v: v} }

//go:norace
func (r *SC[T]) obj() any {
	if r.c == nil {
		return nil
	}
	return r.c
}

//go:norace
func (r *SC[T]) ready() bool { return r.c.canSend() }

//go:norace
func (r *SC[T]) do() { r.c.doSend(r.v) }

//go:norace
func (r *SC[T]) enq(sl *sel, idx int) {
	if r.c != nil {
		r.w = &waiter[T]{sl: sl, idx: idx, v: r.v}
		r.c.sq = append(r.c.sq, r.w)
		r.c.waits(sl)
		Release(unsafe.Pointer(r.w))
	}
}

//go:norace
func (r *SC[T]) woken() {
	r.w.met()
	if r.w.bad {
		panic("send on closed channel")
	}
}

// Select performs a select and returns the index of the case taken, -1 for
// the default.
//
//go:norace
func Select(def bool, cs ...Case) int {
	if killed() {
		if def {
			return -1
		}
		runtime.Goexit()
	}
	var objs []any
	for _, c := range cs {
		if o := c.obj(); o != nil {
			objs = append(objs, o)
		}
	}
	Point(objs...)
	var rd []int
	for i, c := range cs {
		if c.ready() {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		k := 0
		if s != nil {
			k = s.pick(len(rd))
			s.note("select takes case %d", rd[k])
		}
		cs[rd[k]].do()
		return rd[k]
	}
	if def {
		if s == nil {
			return -1
		}
		g := s.cur
		if !g.patient || s.atomic > 0 || g.polls < s.ex.polls {
			g.polls++
			s.note("select takes default")
			return -1
		}
	}
	sl := &sel{g: me()}
	for i, c := range cs {
		c.enq(sl, i)
	}
	sl.g.idle = def
	park("select")
	sl.g.idle = false
	i := sl.g.hit
	if killed() {
		runtime.Goexit()
	}
	if i < 0 {
		sl.done = true
		s.note("select takes default, nothing else can go on")
		return -1
	}
	s.note("select gets case %d", i)
	cs[i].woken()
	return i
}

// Patient marks the current goroutine as one whose polls are bounded by
// Opt.Polls while something else can go on.
//
//go:norace
func Patient() {
	if s != nil && s.cur != nil {
		s.cur.patient = true
	}
}

// Block blocks for good.
//
//go:norace
func Block() { park("select{}") }

// ------------------------------------------------------------------ timers

// AddTimer registers a timer acting on obj; every is 0 for one that fires once.
//
//go:norace
func AddTimer(d, every time.Duration, obj any, fire func(), useful func() bool) (stop func() bool) {
	if s == nil {
		return func() bool { return false }
	}
	t := &timer{pid: s.npid, when: s.now + int64(d), every: int64(every), objs: []any{obj}, fire: fire, useful: useful, live: true, budget: s.ticks}
	s.npid++
	t.ck = append(clock(nil), s.cur.ck...)
	Release(unsafe.Pointer(t))
	if c, ok := obj.(interface{ timed(*timer) }); ok {
		c.timed(t)
	}
	s.timers = append(s.timers, t)
	s.note("timer %d set", t.pid)
	return func() bool {
		Point(obj)
		was := t.live
		t.live = false
		return was
	}
}

// Fire puts a value in a channel with room, without a scheduling point.
//
//go:norace
func (c *Chan[T]) Fire(v T) {
	if !c.closed && (len(c.buf) < c.cap || live(&c.rq) != nil) {
		c.doSend(v)
	}
}

// Useful tells whether Fire would do something.
//
//go:norace
func (c *Chan[T]) Useful() bool { return len(c.buf) < c.cap || live(&c.rq) != nil }

// Now is the virtual time.
//
//go:norace
func Now() int64 {
	if s == nil {
		return 0
	}
	return s.now
}

// Sleep waits for d of virtual time.
//
//go:norace
func Sleep(d time.Duration) {
	if s == nil || s.kill {
		return
	}
	c := NewChan[int](1)
	AddTimer(d, 0, c, func() { c.Fire(1) }, nil)
	c.Recv()
}

// ---------------------------------------------------------- blocking helper

// Ticket is a place in a WaitList.
type Ticket struct {
	g    *gor
	done bool
}

// WaitList is a list of goroutines waiting for something.
type WaitList struct{ q []*Ticket }

// Enlist takes a place in the list.
//
//go:norace
func (l *WaitList) Enlist() *Ticket {
	if killed() {
		return &Ticket{done: true}
	}
	t := &Ticket{g: me()}
	l.q = append(l.q, t)
	return t
}

// Await parks until the place has come up.
//
//go:norace
func (t *Ticket) Await(why string) {
	if !t.done {
		park(why)
	}
}

// Wait parks the current goroutine on the list.
//
//go:norace
func (l *WaitList) Wait(why string) { l.Enlist().Await(why) }

// Wake1 lets the first one go on.
//
//go:norace
func (l *WaitList) Wake1() {
	if len(l.q) > 0 {
		t := l.q[0]
		l.q = l.q[1:]
		t.done = true
		if t.g.st == parked {
			wake(t.g)
		}
	}
}

// WakeAll lets all go on.
//
//go:norace
func (l *WaitList) WakeAll() {
	for len(l.q) > 0 {
		l.Wake1()
	}
}

// Killed tells whether the run is being torn down.
//
//go:norace
func Killed() bool { return killed() }
