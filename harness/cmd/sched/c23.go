//go:build sched

package main

import (
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"time"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/vnet"
	"github.com/go-air/gini/vruntime"
	"github.com/go-air/gini/vsched"
	"github.com/go-air/gini/z"

	"vh/eng"
	"vh/sat"
)

const crispAddr = "localhost:1"

var crispPolls = 1

// startCrisp starts a server on a fresh network.
func startCrisp(handlers, chunk int) *crisp.Server {
	log.SetOutput(io.Discard)
	vnet.Reset()
	vnet.Chunk = chunk
	vruntime.CPUs = handlers
	s, e := crisp.NewServer(crispAddr)
	failIf(e != nil, "NewServer: %v", e)
	vsched.Named("server", func() { s.Serve() })
	settle()
	return s
}

// calm leaves out the interleavings of connecting and disconnecting.
var calm bool

func settle() {
	if calm {
		vsched.Quiesce()
	}
}

// stopCrisp shuts the server down and looks for what is left behind.
func stopCrisp(s *crisp.Server, handlers int) {
	settle()
	s.Shutdown()
	vsched.Daemons()
	w := vsched.Drain()
	if w == "" {
		return
	}
	ws := strings.Split(w, "; ")
	for _, x := range ws {
		failIf(!strings.Contains(x, "waits in receive"), "left behind after all sessions ended: %s", w)
	}
	failIf(len(ws) > handlers, "left behind after all sessions ended: %s", w)
}

// client operations
type cop struct {
	name string
	run  func(x *session) (over bool)
}

// session is a client next to what it should be talking to.
type session struct {
	c     *crisp.Client
	cs    [][]int
	scs   [][]int // at the last solve
	as    []int   // for the next solve
	used  []int   // of the last solve
	last  int     // result of the last solve, 2: none
	dirty bool    // something was added or assumed since
	maxV  int
	where string
	buf   []bool
	ms    []z.Lit
	// the connection may break: errors end the operation, not the check
	frail bool
}

// lost is what operations on a broken connection panic with.
type lost struct{}

const cVars = 40

// The formulas mention variables 1 to 3 and 40, so that models take two words.
func set(cs [][]int, as ...int) sat.BS {
	f := func(l int) int {
		switch l {
		case 40:
			return 4
		case -40:
			return -4
		}
		return l
	}
	b := sat.Full(4)
	for _, c := range cs {
		var d []int
		for _, l := range c {
			d = append(d, f(l))
		}
		b = b.WithClauses([][]int{d})
	}
	for _, l := range as {
		b = b.With(f(l))
	}
	return b
}

func hasVal(b sat.BS, val func(v int) bool) bool {
	a := uint(0)
	for i, v := range []int{1, 2, 3, 40} {
		if val(v) {
			a |= 1 << uint(i)
		}
	}
	return b.Has(a)
}

func (x *session) see(ls ...int) {
	for _, l := range ls {
		if l < 0 {
			l = -l
		}
		if l > x.maxV {
			x.maxV = l
		}
	}
}

func (x *session) dial() {
	c, e := crisp.Dial(crispAddr)
	failIf(e != nil, "%sDial: %v", x.where, e)
	*x = session{frail: x.frail, c: c, last: 2, where: x.where, buf: x.buf, ms: x.ms}
}

func (x *session) ok(e error, op string) {
	if e != nil && x.frail {
		panic(lost{})
	}
	failIf(e != nil, "%s%s: %v", x.where, op, e)
}

func (x *session) add(c []int) {
	for _, l := range c {
		x.ok(x.c.Add(lit(l)), "Add")
	}
	x.ok(x.c.Add(0), "Add(0)")
	x.cs = append(x.cs, c)
	x.see(c...)
	x.dirty = true
}

func (x *session) assume(ls []int) {
	x.ok(x.c.Assume(lits(ls)...), "Assume")
	x.as = append(x.as, ls...)
	x.see(ls...)
	x.dirty = true
}

func (x *session) solved(r int, mayStop bool, op string) {
	x.used, x.as = x.as, nil
	x.dirty = false
	x.last = r
	x.scs = append([][]int(nil), x.cs...)
	want := 1
	if set(x.cs, x.used...).Empty() {
		want = -1
	}
	if r == 0 && mayStop {
		inc("stopped")
		return
	}
	failIf(r != want, "%s%s under %v gives %d; a local solver gives %d", x.where, op, x.used, r, want)
	if r == 1 {
		inc("sat")
	} else {
		inc("unsat")
	}
}

// legal tells whether the answer to a query after a result is defined.
func (x *session) legal(res int) bool { return x.last == res && !x.dirty }

// query handles the outcome of a query that returned e.
func (x *session) query(op string, res int, e error) (over bool) {
	if x.legal(res) {
		x.ok(e, op)
		return false
	}
	failIf(e == nil, "%s%s answers although the last result is %d (since then changed: %v)", x.where, op, x.last, x.dirty)
	inc("queries refused")
	return true
}

func (x *session) model(dst []bool) (over bool) {
	m, e := x.c.Model(dst)
	if x.query("Model", 1, e) {
		return true
	}
	failIf(len(m) < x.maxV+1, "%sModel gives %d values, there are %d variables", x.where, len(m)-1, x.maxV)
	get := func(v int) bool { return v < len(m) && m[v] }
	failIf(!hasVal(set(x.cs, x.used...), get), "%sModel %v is no model of %v under %v", x.where, m, x.cs, x.used)
	if cap(m) > cap(x.buf) {
		x.buf = m
	}
	return false
}

func vals() []int { return []int{1, 2, 3, 40} }

func (x *session) values(order []int) (over bool) {
	got := map[int]bool{}
	for _, v := range order {
		if v > x.maxV {
			continue
		}
		a, e := x.c.Value(lit(v))
		if x.last == 1 && x.dirty {
			// the values of the last model may still be there
			if e != nil {
				if x.frail {
					panic(lost{})
				}
				return true
			}
			inc("values of the last model")
		} else if x.query("Value", 1, e) {
			return true
		}
		b, e := x.c.Value(lit(-v))
		x.ok(e, "Value")
		failIf(a == b, "%sValue of %d and of its negation are both %v", x.where, v, a)
		got[v] = a
	}
	failIf(x.last == 1 && !hasVal(set(x.scs, x.used...), func(v int) bool { return got[v] }), "%sValues %v are no model of %v under %v", x.where, got, x.cs, x.used)
	return false
}

func (x *session) modelFor(dst []bool, ls []int) (over bool) {
	m, e := x.c.ModelFor(dst, lits(ls))
	if x.query("ModelFor", 1, e) {
		return true
	}
	// the truth value of ls[i] is at the place the list has it
	failIf(len(m) < len(ls), "%sModelFor %v gives %d values", x.where, ls, len(m))
	b := set(x.cs, x.used...)
	for i, l := range ls {
		if abs(l) > x.maxV {
			continue
		}
		if !m[i] {
			l = -l
		}
		if abs(l) <= 3 || abs(l) == 40 {
			b = set(x.cs, append(append([]int(nil), x.used...), pick(ls[:i+1], m)...)...)
		}
	}
	failIf(b.Empty(), "%sModelFor %v gives %v: that is no part of a model of %v under %v", x.where, ls, m[:len(ls)], x.cs, x.used)
	return false
}

func pick(ls []int, m []bool) []int {
	var r []int
	for i, l := range ls {
		if a := abs(l); a > 3 && a != 40 {
			continue
		}
		if !m[i] {
			l = -l
		}
		r = append(r, l)
	}
	return r
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

func (x *session) why(dst []z.Lit) (over bool) {
	n := len(dst)
	ms, e := x.c.Why(dst)
	if x.query("Why", -1, e) {
		return true
	}
	failIf(len(ms) < n, "%sWhy drops what dst holds", x.where)
	for i := range dst {
		failIf(ms[i] != dst[i], "%sWhy changes what dst holds", x.where)
	}
	var ws []int
	for _, m := range ms[n:] {
		ok := false
		for _, a := range x.used {
			ok = ok || lit(a) == m
		}
		failIf(!ok, "%sWhy: %s was not assumed (%v)", x.where, m, x.used)
		ws = append(ws, m.Dimacs())
	}
	failIf(!set(x.cs, ws...).Empty(), "%sWhy %v does not suffice (%v under %v)", x.where, ws, x.cs, x.used)
	return false
}

func (x *session) whySelect(dst []z.Lit, ls []int) (over bool) {
	n := len(dst)
	ms, e := x.c.WhySelect(dst, lits(ls))
	if x.query("WhySelect", -1, e) {
		return true
	}
	failIf(len(ms) < n, "%sWhySelect drops what dst holds", x.where)
	ms = ms[n:]
	all, e := x.c.Why(nil)
	x.ok(e, "Why")
	in := map[z.Lit]bool{}
	for _, m := range all {
		in[m] = true
	}
	var want []z.Lit
	for _, l := range ls {
		if in[lit(l)] {
			want = append(want, lit(l))
		}
	}
	failIf(fmt.Sprint(ms) != fmt.Sprint(want) && len(ms)+len(want) > 0, "%sWhySelect %v gives %v; Why says %v", x.where, ls, ms, all)
	return false
}

func (x *session) solve() { r, e := x.c.Solve(); x.ok(e, "Solve"); x.solved(r, false, "Solve") }

var copsBase = []cop{
	{"Add 1", func(x *session) bool { x.add([]int{1}); return false }},
	{"Add -1 2", func(x *session) bool { x.add([]int{-1, 2}); return false }},
	{"Add -2 -40 3", func(x *session) bool { x.add([]int{-2, -40, 3}); return false }},
	{"Add 40 -40", func(x *session) bool { x.add([]int{40, -40}); return false }},
	{"Add -2 / empty", func(x *session) bool { x.add([]int{-2}); x.add(nil); return false }},
	{"Assume -2", func(x *session) bool { x.assume([]int{-2}); return false }},
	{"Assume 40 1", func(x *session) bool { x.assume([]int{40, 1}); return false }},
	{"Assume 3 -3", func(x *session) bool { x.assume([]int{3, -3}); return false }},
	{"Solve", func(x *session) bool { x.solve(); return false }},
	{"GoSolve Stop", func(x *session) bool {
		r, e := x.c.GoSolve().Stop()
		x.ok(e, "Stop")
		x.solved(r, true, "Stop")
		return false
	}},
	{"GoSolve Try", func(x *session) bool {
		r, e := x.c.GoSolve().Try(time.Second)
		x.ok(e, "Try")
		x.solved(r, true, "Try")
		return false
	}},
	{"GoSolve Test Stop", func(x *session) bool {
		s := x.c.GoSolve()
		r, done, e := s.Test()
		x.ok(e, "Test")
		if done {
			x.solved(r, false, "Test")
			return false
		}
		r, e = s.Stop()
		x.ok(e, "Stop")
		x.solved(r, true, "Stop")
		return false
	}},
	{"Model", func(x *session) bool { return x.model(nil) }},
	{"Model reusing", func(x *session) bool { return x.model(x.buf[:0:cap(x.buf)]) || x.model(make([]bool, 3)) }},
	{"Value", func(x *session) bool { return x.values(vals()) }},
	{"ModelFor", func(x *session) bool {
		return x.modelFor(nil, []int{40, -1, 3}) || x.modelFor(make([]bool, 33), []int{1, 2, -3}) || x.modelFor(make([]bool, 0, 32), []int{-2})
	}},
	{"ModelFor unknown", func(x *session) bool { return x.modelFor(nil, []int{3, 77, 1}) }},
	{"Why", func(x *session) bool { return x.why(nil) || x.why([]z.Lit{lit(9)}) }},
	{"WhySelect", func(x *session) bool { return x.whySelect(nil, []int{1, 7, -2, 40, -3, 3}) }},
	{"Reset", func(x *session) bool {
		x.ok(x.c.Reset(), "Reset")
		x.cs, x.as, x.used, x.last, x.dirty, x.maxV = nil, nil, nil, 2, false, 0
		return false
	}},
	{"GetExts", func(x *session) bool {
		n, e := x.c.GetExts()
		x.ok(e, "GetExts")
		failIf(n != 0, "%sGetExts gives %d", x.where, n)
		return false
	}},
	{"Dimacs", func(x *session) bool {
		x.ok(x.c.Dimacs(strings.NewReader("c x\np cnf 40 4\n1 2 0\n-1 0\n40 -40 0\n3 -1 -2 0\n")), "Dimacs")
		for _, c := range [][]int{{1, 2}, {-1}, {40, -40}, {3, -1, -2}} {
			x.cs = append(x.cs, c)
			x.see(c...)
		}
		x.dirty = true
		return false
	}},
	{"reconnect", func(x *session) bool { x.end(); x.dial(); return false }},
	{"Add empty", func(x *session) bool { x.add(nil); return false }},
}

func (x *session) end() {
	x.c.Quit()
	settle()
	x.c.Close()
	settle()
}

func runCrisp(script []int32, chunk int) func() {
	return func() {
		s := startCrisp(1, chunk)
		x := &session{}
		x.dial()
		for i, o := range script {
			x.where = fmt.Sprintf("operation %d (%s): ", i+1, copsBase[o].name)
			if copsBase[o].run(x) {
				break
			}
		}
		x.where = "end: "
		x.end()
		stopCrisp(s, 1)
	}
}

func copScript(c []int32) string {
	var n []string
	for _, o := range c {
		n = append(n, copsBase[o].name)
	}
	return strings.Join(n, "; ")
}

// scripts enumerates the operation sequences of length n that end in
// something observable; a query that must be refused ends one.
func scripts(n int, ops []int32, yield func(c []int32) bool) bool {
	var c []int32
	var rec func(d int, solved, dirty bool) bool
	rec = func(d int, solved, dirty bool) bool {
		if d == 0 {
			l := c[len(c)-1]
			if !isSolve(l) && !isQuery(l) && copsBase[l].name != "GetExts" {
				return true
			}
			return yield(append([]int32(nil), c...))
		}
		for _, o := range ops {
			s2, d2 := solved, dirty
			switch {
			case isSolve(o):
				s2, d2 = true, false
			case isQuery(o):
				if d > 1 && (!solved || dirty) {
					continue
				}
			case copsBase[o].name == "Reset", copsBase[o].name == "reconnect":
				s2, d2 = false, false
			case copsBase[o].name == "GetExts":
			default:
				d2 = true
			}
			c = append(c, o)
			if !rec(d-1, s2, d2) {
				return false
			}
			c = c[:len(c)-1]
		}
		return true
	}
	return rec(n, false, false)
}

func isSolve(o int32) bool { return o >= 8 && o <= 11 }
func isQuery(o int32) bool { return o >= 12 && o <= 18 }

func named(names ...string) (r []int32) {
	for _, n := range names {
		ok := false
		for i := range copsBase {
			if copsBase[i].name == n {
				r = append(r, int32(i))
				ok = true
			}
		}
		if !ok {
			panic(n)
		}
	}
	return
}

// runBreak runs a session whose connection breaks; it notes in l how many
// bytes were sent.
func runBreak(c []int32, names []string, l *[2]int) func() {
	script := named(names...)
	calm = true
	return func() {
		vsched.Fixed(true)
		s := startCrisp(1, int(c[3]))
		if c[1] == 0 {
			vnet.NextUp = int(c[2])
		} else {
			vnet.NextDown = int(c[2])
		}
		x := &session{frail: true}
		vsched.Fixed(false)
		broken := false
		try := func(f func()) (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(lost); !is {
						panic(r)
					}
					inc("errors from a broken connection")
					broken = true
				}
			}()
			f()
			return true
		}
		up := try(func() {
			cl, e := crisp.Dial(crispAddr)
			x.ok(e, "Dial")
			x.c, x.last = cl, 2
		})
		if up {
		ops:
			for i, o := range script {
				x.where = fmt.Sprintf("operation %d (%s) of a session that breaks: ", i+1, copsBase[o].name)
				was := broken
				over := true
				if try(func() { over = copsBase[o].run(x) }) {
					if over && !was {
						break ops // refused, rightly
					}
					switch n := copsBase[o].name; {
					case !was, over:
					case isSolve(o), n == "Model", n == "ModelFor", n == "Why", n == "WhySelect", n == "Reset":
						vsched.Fail("%sreports success after the connection broke", x.where)
					}
				}
				if broken && !was {
					inc("sessions broken")
				}
			}
			x.c.Quit()
			settle()
			x.c.Close()
		} else {
			// what Dial opened is out of reach: the peer sees it break
			vnet.Opened[0].Break()
		}
		settle()
		if l != nil {
			l[0], l[1] = vnet.Opened[0].Sent()
		}
		vsched.Fixed(true)
		goodPeer("session opened after: ")
		stopCrisp(s, 1)
	}
}

func c23() *eng.Prop {
	var all []int32
	for i := range copsBase {
		all = append(all, int32(i))
	}
	sess := &eng.Part{
		Name: "session",
		Desc: "a client and a server: every sequence of client operations up to a length (3, thorough 4), bytes arriving as they were written and, up to one operation less, one by one, all schedules; each answer against a truth table",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			n := t.Pick(3, 4)
			for k := 1; k <= n; k++ {
				for chunk := int32(0); chunk < 2; chunk++ {
					if chunk == 1 && k == n {
						continue
					}
					if !scripts(k, all, func(c []int32) bool { return yield(append([]int32{chunk}, c...)) }) {
						return
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			calm = true
			return exploreCrisp(copScript(c[1:]), runCrisp(c[1:], int(c[0])), 20000, 0, cov)
		},
		Show:    func(c []int32) string { return fmt.Sprintf("chunk %d: %s", c[0], copScript(c[1:])) },
		Hang:    time.Minute,
		Dynamic: true,
	}
	some := named("Add 1", "Add -1 2", "Assume -2", "Solve", "GoSolve Stop", "Value", "ModelFor", "Why", "Reset", "reconnect")
	long := &eng.Part{
		Name: "long",
		Desc: "as session, longer sequences (5, thorough 6) over a part of the operations",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			n := t.Pick(5, 6)
			for k := 4; k <= n; k++ {
				if !scripts(k, some, func(c []int32) bool { return yield(append([]int32{0}, c...)) }) {
					return
				}
			}
		},
		Run: sess.Run, Show: sess.Show, Hang: sess.Hang, Dynamic: true,
	}
	connect := &eng.Part{
		Name: "connect",
		Desc: "short sessions (1 operation, thorough 2), all schedules including those of connecting, disconnecting and shutting down",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for k := 1; k <= t.Pick(1, 2); k++ {
				if !scripts(k, all, func(c []int32) bool { return yield(append([]int32{0}, c...)) }) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			calm = false
			return exploreCrisp(copScript(c[1:]), runCrisp(c[1:], int(c[0])), 20000, 0, cov)
		},
		Show: sess.Show, Hang: sess.Hang, Dynamic: true,
	}
	pairs := [][]string{
		{"Add 1", "Solve", "Value"},
		{"Add -1 2", "Assume -2", "Solve"},
		{"Assume 3 -3", "Solve", "Why"},
		{"Add -2 / empty", "GoSolve Stop"},
		{"Dimacs", "Solve", "Model"},
		{"Add 1", "Reset", "Add -2 -40 3", "Solve", "ModelFor"},
	}
	two := &eng.Part{
		Name: "two",
		Desc: "two clients at once on one server with one handler or two, all schedules of two short sessions (with two handlers and a solve that is stopped: thorough only); each client against its own truth table",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for h := int32(1); h <= 2; h++ {
				for a := range pairs {
					for b := 0; b <= a; b++ {
						if h == 2 && (a == 3 || b == 3) && t == eng.Quick {
							continue // many schedules
						}
						if !yield([]int32{h, int32(a), int32(b)}) {
							return
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			f := func() {
				calm = false
				h := int(c[0])
				s := startCrisp(h, 0)
				vsched.Quiesce()
				done := vsched.NewChan[int](2)
				for i := 0; i < 2; i++ {
					script := named(pairs[c[1+i]]...)
					who := fmt.Sprintf("client %d: ", i)
					vsched.Named(who, func() {
						x := &session{where: who}
						x.dial()
						for _, o := range script {
							if copsBase[o].run(x) {
								vsched.Fail("%s%s was refused", who, copsBase[o].name)
							}
						}
						x.end()
						done.Send(1)
					})
				}
				done.Recv()
				done.Recv()
				vsched.Quiesce()
				stopCrisp(s, h)
			}
			return exploreCrisp(fmt.Sprint(c), f, 40000, 0, cov)
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("%d handlers: %v | %v", c[0], pairs[c[1]], pairs[c[2]])
		},
		Hang: time.Minute, Dynamic: true,
	}
	tracing := &eng.Part{
		Name: "trace",
		Desc: "tracing switched on and off (Trace) at any moment of a session or of two handlers starting (thorough: also two sessions at once), with and without TRACE_CRISP in the environment; all schedules",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for env := int32(0); env < 2; env++ {
				for a := int32(0); a < int32(len(pairs)); a++ {
					if !yield([]int32{env, 1, 1, a}) {
						return
					}
				}
				for k := int32(1); k <= 2; k++ {
					for h := int32(1); h <= 2; h++ {
						if k == 2 && t == eng.Quick {
							continue // many schedules
						}
						if !yield([]int32{env, h, k, int32(len(pairs))}) {
							return
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			if c[0] == 1 {
				os.Setenv("TRACE_CRISP", "1")
				defer os.Unsetenv("TRACE_CRISP")
			}
			f := func() {
				calm = false
				h := int(c[1])
				s := startCrisp(h, 0)
				vsched.Named("tracer", func() {
					s.Trace(true)
					s.Trace(false)
				})
				done := vsched.NewChan[int](2)
				for i := 0; i < int(c[2]); i++ {
					var script []int32
					if int(c[3]) < len(pairs) {
						script = named(pairs[c[3]]...)
					}
					who := fmt.Sprintf("client %d: ", i)
					vsched.Named(who, func() {
						x := &session{where: who}
						x.dial()
						for _, o := range script {
							if copsBase[o].run(x) {
								vsched.Fail("%s%s was refused", who, copsBase[o].name)
							}
						}
						x.end()
						done.Send(1)
					})
				}
				for i := 0; i < int(c[2]); i++ {
					done.Recv()
				}
				stopCrisp(s, h)
			}
			return exploreCrisp(fmt.Sprint(c), f, 40000, 0, cov)
		},
		Show: func(c []int32) string {
			op := []string{"nothing"}
			if int(c[3]) < len(pairs) {
				op = pairs[c[3]]
			}
			return fmt.Sprintf("TRACE_CRISP %d, %d handlers, %d clients: %v", c[0], c[1], c[2], op)
		},
		Hang: time.Minute, Dynamic: true,
	}
	breaks := [][]string{
		{"Add -1 2", "Solve", "Model", "Add 1", "Assume -2", "Solve", "Why", "WhySelect", "Reset", "Add -2 -40 3", "Solve", "ModelFor"},
		{"Dimacs", "GoSolve Try", "GetExts", "Assume -2", "Solve", "WhySelect", "Solve", "ModelFor", "Value"},
		{"Add -2 / empty", "GoSolve Stop", "Solve", "Why", "Reset", "Solve", "Model"},
		{"Assume 3 -3", "GoSolve Test Stop", "Why", "Solve", "Model", "Assume 40 1", "Assume 3 -3", "Solve", "WhySelect"},
	}
	lose := &eng.Part{
		Name: "lost",
		Desc: "four sessions whose connection breaks after every number of bytes (quick: in one of them every third) in either direction, bytes arriving as they were written (thorough: also one by one), all schedules: no operation gives a wrong answer, panics or hangs, and every operation that needs the connection fails from then on",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for k := range breaks {
				var l [2]int
				vsched.Explore(runBreak([]int32{int32(k), 0, 10000, 0}, breaks[k], &l), vsched.Opt{Limit: 20000, Max: 1})
				for dir := int32(0); dir < 2; dir++ {
					for i := int32(0); i < int32(l[dir])+12; i++ {
						if k == 1 && t == eng.Quick && i%3 != 0 {
							continue // many schedules
						}
						for chunk := int32(0); chunk < int32(t.Pick(1, 2)); chunk++ {
							if !yield([]int32{int32(k), dir, i, chunk}) {
								return
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			f := runBreak(c, breaks[c[0]], nil)
			return exploreCrisp(fmt.Sprint(c), f, 20000, 0, cov)
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("%v, cut %s after %d bytes, chunk %d", breaks[c[0]], []string{"up", "down"}[c[1]], c[2], c[3])
		},
		Hang: time.Minute, Dynamic: true,
	}
	return &eng.Prop{
		ID:    "C23",
		Level: "implementation",
		Rule:  "real client, server and solver under the controlled scheduler; small formulas over 4 of 40 variables",
		Parts: []*eng.Part{connect, sess, long, two, lose, greetPart(), largePart(), tracing,
			races(connect, "all", func(t eng.Tier, c []int32) bool { return true }),
			races(sess, "up to 2 operations, thorough 3", func(t eng.Tier, c []int32) bool { return len(c)-1 <= t.Pick(2, 3) }),
			races(two, "quick: one pair of sessions", func(t eng.Tier, c []int32) bool {
				return t == eng.Thorough || c[1] < 1
			}),
			races(tracing, "all", func(t eng.Tier, c []int32) bool { return t == eng.Thorough || c[2] == 1 }),
			races(lose, "quick: the first session", func(t eng.Tier, c []int32) bool { return t == eng.Thorough || c[0] == 0 }),
		},
	}
}

func exploreCrisp(name string, f func(), limit, max int, cov *eng.Cov) error {
	counts = nil
	defer func() {
		for _, c := range counts {
			cov.Add(c.k, c.n)
		}
	}()
	r := vsched.Explore(f, vsched.Opt{Ticks: 0, Limit: limit, Max: max, Polls: crispPolls, Stop: eng.OutOfTimeBeat})
	if dbg {
		fmt.Fprintln(dbgFile(), name, r.Runs, r.Pruned, r.Steps/int64(r.Runs+1))
	}
	return explored(name, r, cov)
}

var dbg = os.Getenv("DBG") != ""
