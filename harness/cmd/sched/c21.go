//go:build sched

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/go-air/gini/ax"
	"github.com/go-air/gini/vsched"
	"github.com/go-air/gini/z"

	"vh/eng"
	"vh/sat"
)

// request kinds: assumptions, flags, limit
type reqKind struct {
	as    []int
	flag  ax.ReqFlag
	limit time.Duration
}

func (k reqKind) String() string { return fmt.Sprintf("%v%s/%s", k.as, k.flag, k.limit) }

var kinds = []reqKind{
	{nil, ax.ReqModel | ax.ReqWhy, 0},
	{[]int{1}, ax.ReqModel, 0},
	{[]int{-1, 2}, ax.ReqModel | ax.ReqWhy, 0},
	{[]int{3, -3}, ax.ReqWhy, 0},
	{[]int{-1, 2, -3}, 0, time.Millisecond},
	{nil, ax.ReqModel | ax.ReqWhy, time.Microsecond},
}

// client steps
const (
	xEx     = iota // Ex(next request), until it is accepted
	xEx1           // one Ex(next request); the request is kept if a response came
	xExNil         // Ex(nil) if something is outstanding
	xTry           // TryEx(next request)
	xTryNil        // TryEx(nil)
	xStop          // Stop
)

var xNames = []string{"Ex*(r)", "Ex(r)", "Ex(nil)", "TryEx(r)", "TryEx(nil)", "Stop"}

func axForms() []*form {
	var x3 [][]int
	x3 = sat.Xor(x3, []int{1, 2, 3}, 0)
	return []*form{
		{name: "sat3", nv: 3, cs: [][]int{{1, 2}, {-1, 3}, {-2, -3}}},
		{name: "xor3", nv: 3, cs: x3},
		{name: "unsat3", nv: 3, cs: [][]int{{1, 2}, {1, -2}, {-1, 3}, {-1, -3}}},
		{name: "units", nv: 3, cs: [][]int{{1}, {2, 3}}},
	}
}

// book keeps account of requests and responses.
type book struct {
	f     *form
	cap   int
	open  map[*ax.Request]int64 // accepted or being submitted, with the time of submission
	kind  map[*ax.Request]reqKind
	out   int // accepted and not answered
	exact bool
}

// newReq makes a request; the slice it is made from is reused afterwards.
func newReq(k reqKind, gen *ax.RequestGen) *ax.Request {
	gen.SetFlag(k.flag)
	gen.Limit(k.limit)
	ms := lits(k.as)
	r := gen.New(ms...)
	for i := range ms {
		ms[i] = lit(1)
	}
	failIf(gen.Flag() != k.flag || r.Flag != k.flag || r.Limit != k.limit, "request with flag %s and limit %s made as %s %s", k.flag, k.limit, r.Flag, r.Limit)
	return r
}

func (b *book) newReq(k reqKind, gen *ax.RequestGen) *ax.Request {
	r := newReq(k, gen)
	b.kind[r] = k
	return r
}

func (b *book) response(r *ax.Response, now int64) {
	if _, ok := b.open[r.Req]; !ok {
		vsched.Fail("response to a request that is not outstanding: %v (%v)", r.Req, r.Res)
	}
	t0 := b.open[r.Req]
	delete(b.open, r.Req)
	b.out--
	k := b.kind[r.Req]
	want := b.f.truth(k.as...)
	if r.Res != want {
		late := k.limit > 0 && now >= t0+int64(k.limit)
		if r.Res != 0 || !late {
			vsched.Fail("request %v was answered %d, the right answer is %d", k, r.Res, want)
		}
		inc("limits expired")
	}
	failIf(r.Who < 0 || r.Who >= b.cap, "unit %d of %d", r.Who, b.cap)
	failIf(r.Dur < 0, "negative duration")
	failIf(b.exact && r.Pending != b.out, "response says %d requests are pending, it is %d", r.Pending, b.out)
	switch {
	case r.Res == 1 && k.flag.Model():
		failIf(len(r.Ms) != b.f.nv, "model %v does not give all %d variables", r.Ms, b.f.nv)
		a := uint(0)
		for _, m := range r.Ms {
			v := int(m.Var())
			failIf(v > b.f.nv, "model %v mentions a variable beyond %d", r.Ms, b.f.nv)
			if m.IsPos() {
				a |= 1 << uint(v-1)
			}
		}
		failIf(!sat.Full(b.f.nv).WithClauses(b.f.cs).With(k.as...).Has(a), "response to %v: %v is no model", k, r.Ms)
	case r.Res == -1 && k.flag.Why():
		var ws []int
		for _, m := range r.Ms {
			ok := false
			for _, x := range k.as {
				ok = ok || lit(x) == m
			}
			failIf(!ok, "response to %v: failed assumption %s was not assumed", k, m)
			ws = append(ws, m.Dimacs())
		}
		failIf(!sat.Full(b.f.nv).WithClauses(b.f.cs).With(ws...).Empty(), "response to %v: failed assumptions %v do not suffice", k, ws)
	default:
		failIf(len(r.Ms) != 0, "response to %v carries literals %v that were not asked for", k, r.Ms)
	}
}

// submit tries to submit with f; reports whether it was accepted.
func (b *book) submit(r *ax.Request, f func(r *ax.Request) (*ax.Response, bool)) bool {
	if _, ok := b.open[r]; !ok {
		b.open[r] = vsched.Now()
	}
	resp, ok := f(r)
	if resp != nil {
		failIf(!ok, "TryEx gives a response and says there was no exchange")
		delete(b.open, r)
		b.response(resp, vsched.Now())
		return false
	}
	if ok {
		b.out++
	} else {
		delete(b.open, r)
	}
	return ok
}

func newBook(f *form, cap int) *book {
	return &book{f: f, cap: cap, open: map[*ax.Request]int64{}, kind: map[*ax.Request]reqKind{}}
}

func (f *form) mkAx(cap int, real bool) (x ax.T) {
	vsched.Atomic(func() {
		if real {
			x = ax.NewT(f.mk(), cap)
		} else {
			x = ax.NewT(newStub(f), cap)
		}
	})
	return
}

func ex(x ax.T) func(r *ax.Request) (*ax.Response, bool) {
	return func(r *ax.Request) (*ax.Response, bool) { return x.Ex(r), true }
}

// runAx runs one client.
func runAx(f *form, real bool, cap int, ks []int32, script []int32) func() {
	return func() {
		x := f.mkAx(cap, real)
		b := newBook(f, cap)
		b.exact = true
		gen := ax.NewRequestGen()
		var req *ax.Request
		ni := 0
		nextReq := func() *ax.Request {
			if req == nil {
				req = b.newReq(kinds[ks[ni]], gen)
				ni++
			}
			return req
		}
		for _, s := range script {
			switch s {
			case xEx:
				for !b.submit(nextReq(), ex(x)) {
				}
				req = nil
			case xEx1:
				if b.submit(nextReq(), ex(x)) {
					req = nil
				}
			case xTry:
				if b.submit(nextReq(), x.TryEx) {
					req = nil
				}
			case xExNil:
				if b.out > 0 {
					r := x.Ex(nil)
					failIf(r == nil, "Ex(nil) returned nothing with %d requests outstanding", b.out)
					b.response(r, vsched.Now())
				}
			case xTryNil:
				r, ok := x.TryEx(nil)
				failIf(ok != (r != nil), "TryEx(nil) returned %v, %v", r, ok)
				if r != nil {
					b.response(r, vsched.Now())
				}
			case xStop:
				x.Stop()
				if w := vsched.Drain(); w != "" {
					vsched.Fail("left behind after Stop: %s", w)
				}
				if b.out > 0 {
					inc("stopped with requests outstanding")
				}
				return
			}
		}
		for b.out > 0 {
			r := x.Ex(nil)
			failIf(r == nil, "Ex(nil) returned nothing with %d requests outstanding", b.out)
			b.response(r, vsched.Now())
		}
		r, ok := x.TryEx(nil)
		failIf(r != nil || ok, "a response (%v) after all requests were answered", r)
		x.Stop()
		if w := vsched.Drain(); w != "" {
			vsched.Fail("left behind after Stop: %s", w)
		}
	}
}

// runAx2 runs two clients submitting with Ex, and collects or stops.
func runAx2(f *form, real bool, cap int, ka, kb []int32, stop bool) func() {
	return func() {
		x := f.mkAx(cap, real)
		done := vsched.NewChan[int](2)
		// what each client saw; nothing is shared between them
		type event struct {
			r    *ax.Request
			resp *ax.Response
			now  int64
			k    reqKind
		}
		var logs [2][]event
		client := func(i int, ks []int32) func() {
			gen := ax.NewRequestGen()
			return func() {
				for _, k := range ks {
					r := newReq(kinds[k], gen)
					logs[i] = append(logs[i], event{r: r, now: vsched.Now(), k: kinds[k]})
					for {
						resp := x.Ex(r)
						if resp == nil {
							break
						}
						logs[i] = append(logs[i], event{resp: resp, now: vsched.Now()})
					}
				}
				done.Send(1)
			}
		}
		vsched.Named("client A", client(0, ka))
		vsched.Named("client B", client(1, kb))
		var rest []event
		if !stop {
			done.Recv()
			done.Recv()
			n := len(ka) + len(kb)
			for _, l := range logs {
				for _, e := range l {
					if e.resp != nil {
						n--
					}
				}
			}
			for ; n > 0; n-- {
				r := x.Ex(nil)
				failIf(r == nil, "Ex(nil) returned nothing with %d requests outstanding", n)
				rest = append(rest, event{resp: r, now: vsched.Now()})
			}
			r, ok := x.TryEx(nil)
			failIf(r != nil || ok, "a response (%v) after all requests were answered", r)
		}
		x.Stop()
		if w := vsched.Drain(); w != "" {
			vsched.Fail("left behind after Stop: %s", w)
		}
		b := newBook(f, cap)
		for _, l := range logs {
			for _, e := range l {
				if e.r != nil {
					b.open[e.r] = e.now
					b.kind[e.r] = e.k
					b.out++
				}
			}
		}
		for _, l := range [][]event{logs[0], logs[1], rest} {
			for _, e := range l {
				if e.resp != nil {
					b.response(e.resp, e.now)
				}
			}
		}
		failIf(!stop && len(b.open) > 0, "%d requests were never answered", len(b.open))
	}
}

func xScript(s []int32) string {
	var n []string
	for _, x := range s {
		n = append(n, xNames[x])
	}
	return strings.Join(n, " ")
}

func kindNames(ks []int32) string {
	var n []string
	for _, k := range ks {
		n = append(n, kinds[k].String())
	}
	return strings.Join(n, " ")
}

// tkReal bounds how often a worker may look for its result while something
// else could go on.
func tkReal(u, lim int) int {
	switch {
	case u < 2:
		return 2
	case lim == 0:
		return 1
	}
	return 0
}

// number of requests a script can use
func uses(s []int32) int {
	n := 0
	for _, x := range s {
		if x == xEx || x == xEx1 || x == xTry {
			n++
		}
	}
	return n
}

func c21() *eng.Prop {
	fs := axForms()
	scripts := func(n int) [][]int32 {
		var out [][]int32
		var s []int32
		var rec func(n int)
		rec = func(n int) {
			if len(s) > 0 {
				if uses(s) > 0 {
					out = append(out, append([]int32(nil), s...))
				}
				out = append(out, append(append([]int32(nil), s...), xStop))
			} else {
				out = append(out, []int32{xStop})
			}
			if n == 0 {
				return
			}
			for x := int32(xEx); x <= xTryNil; x++ {
				if uses(s) == 0 && x == xExNil {
					continue
				}
				s = append(s, x)
				rec(n - 1)
				s = s[:len(s)-1]
			}
		}
		rec(n)
		return out
	}
	// the kinds of requests along a script
	assign := func(n, first int) []int32 {
		var ks []int32
		for i := 0; i < n; i++ {
			ks = append(ks, int32((first+i*(1+first%2))%len(kinds)))
		}
		return ks
	}
	b2i := func(b bool) int32 {
		if b {
			return 1
		}
		return 0
	}
	// case: formula, real solver, units, number of requests, requests, script
	mkOne := func(name, desc string, enum func(t eng.Tier, yield func(c []int32) bool)) *eng.Part {
		p := &eng.Part{Name: name, Desc: desc, Enum: enum, Hang: time.Minute, Dynamic: true}
		p.Show = func(c []int32) string {
			k := 4 + c[3]
			return fmt.Sprintf("formula %s, %d units, client: %s; requests %s", fs[c[0]].name, c[2], xScript(c[k:]), kindNames(c[4:k]))
		}
		p.Run = func(c []int32, cov *eng.Cov) error {
			k := 4 + c[3]
			return exploreCase(p.Show(c), runAx(fs[c[0]], c[1]&1 == 1, int(c[2]), c[4:k], c[k:]), int(c[1]>>1), 3000, 0, cov)
		}
		return p
	}
	real := mkOne("real", "the exchanger over the real solver: every script up to 2 steps of one client, with all answers collected or Stop in the middle; 1 or 2 units, formulas and kinds of requests in rotation; every schedule",
		func(t eng.Tier, yield func(c []int32) bool) {
			for n := 1; n <= 2; n++ {
				for si, s := range scripts(n) {
					if len(s) < n {
						continue
					}
					u := uses(s)
					for fi := range fs {
						for cap := int32(1); cap <= 2; cap++ {
							for k := range kinds {
								if (u == 0 && k > 0) || (u < 2 && cap > 1) {
									break
								}
								lim := 0
								for _, x := range assign(u, k) {
									if kinds[x].limit > 0 {
										lim++
									}
								}
								if t == eng.Quick && u == 2 && (lim > 0 || (fi+k+si)%4 != 0) {
									continue
								}
								c := append([]int32{int32(fi), b2i(true) + 2*int32(tkReal(u, lim)), cap, int32(u)}, assign(u, k)...)
								if !yield(append(c, s...)) {
									return
								}
							}
						}
					}
				}
			}
		})
	stub := mkOne("client", "the exchanger over a model solver whose solves take any time: every script up to 3 steps (thorough 4) of one client over Ex, TryEx, Ex(nil), TryEx(nil), with all answers collected or Stop in the middle; 1 to 3 units, kinds of requests in rotation; every schedule",
		func(t eng.Tier, yield func(c []int32) bool) {
			for n := 1; n <= t.Pick(3, 4); n++ {
				for si, s := range scripts(n) {
					if len(s) < n {
						continue
					}
					u := uses(s)
					for cap := int32(1); cap <= 3; cap++ {
						for k := range kinds {
							if (u == 0 && k > 0) || (cap > 1 && int(cap) > u) {
								break
							}
							lim := 0
							for _, x := range assign(u, k) {
								if kinds[x].limit > 0 {
									lim++
								}
							}
							tk := []int{2, 2, 1, 0, 0}[u]
							if lim > 0 && u > 1 {
								tk = 0
							}
							if t == eng.Quick {
								if n > 2 {
									tk = 0
								}
								if (u >= 2 && lim >= 2 && (n > 2 || cap > 1)) || (n == 3 && u >= 2 && (int(cap)+k+si)%4 != 0) || (u == 3 && (lim > 0 || (int(cap)+k+si)%12 != 0)) {
									continue
								}
							}
							if u >= 4 || (u == 3 && lim > 1) {
								continue
							}
							c := append([]int32{int32((si + k) % len(fs)), b2i(false) + 2*int32(tk), cap, int32(u)}, assign(u, k)...)
							if !yield(append(c, s...)) {
								return
							}
						}
					}
				}
			}
		})
	two := &eng.Part{
		Name: "clients",
		Desc: "two clients in their own goroutines submitting one request each (thorough also two and one) with Ex, answers collected by either or by a third, or stopped meanwhile; 1 or 2 units, all pairs of kinds; model solver (thorough also the real one); every schedule",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for cap := int32(1); cap <= 2; cap++ {
				for a := 0; a < len(kinds); a++ {
					for b := a; b < len(kinds); b++ { // the clients are alike
						for st := int32(0); st < 2; st++ {
							lim := 0
							if kinds[a].limit > 0 {
								lim++
							}
							if kinds[b].limit > 0 {
								lim++
							}
							if t == eng.Quick && (lim > 1 || (lim > 0 && (a+b+int(st)+int(cap))%3 != 0)) {
								continue
							}
							for r := int32(0); r < int32(t.Pick(1, 2)); r++ {
								if !yield([]int32{int32((a + b) % len(fs)), r + 2*int32(t.Pick(0, 1-(lim+1)/2)), cap, st, 1, int32(a), int32(b)}) {
									return
								}
							}
							if t == eng.Thorough && kinds[a].limit == 0 && kinds[b].limit == 0 {
								if !yield([]int32{int32((a + b) % len(fs)), 0, cap, st, 2, int32(a), int32(b), int32(b)}) {
									return
								}
							}
						}
					}
				}
			}
		},
		Hang: time.Minute, Dynamic: true,
	}
	two.Show = func(c []int32) string {
		k := 5 + c[4]
		w := "collected"
		if c[3] == 1 {
			w = "stopped"
		}
		return fmt.Sprintf("formula %s, %d units, client A: %s, client B: %s, %s", fs[c[0]].name, c[2], kindNames(c[5:k]), kindNames(c[k:]), w)
	}
	two.Run = func(c []int32, cov *eng.Cov) error {
		k := 5 + c[4]
		return exploreCase(two.Show(c), runAx2(fs[c[0]], c[1]&1 == 1, int(c[2]), c[5:k], c[k:], c[3] == 1), int(c[1]>>1), 3000, 0, cov)
	}
	red := reduction(stub, 8, func(c []int32) (func(), int) {
		k := 4 + c[3]
		return runAx(fs[c[0]], c[1]&1 == 1, int(c[2]), c[4:k], c[k:]), int(c[1] >> 1)
	})
	genPart := genPart()
	return &eng.Prop{
		ID: "C21", Level: "model_checking",
		Rule: "a case (formula, units, requests and client script) is non-trivial when it has more than one schedule",
		Parts: []*eng.Part{stub, two, real, genPart,
			races(genPart, "all", func(t eng.Tier, c []int32) bool { return true }),
			races(stub, "scripts of up to 2 steps with at most one limit; thorough 3 steps", func(t eng.Tier, c []int32) bool {
				lim := 0
				for _, k := range c[4 : 4+c[3]] {
					if kinds[k].limit > 0 {
						lim++
					}
				}
				return len(c)-4-int(c[3]) <= t.Pick(2, 3) && (t == eng.Thorough || lim < 2)
			}),
			races(two, "quick: without time limits", func(t eng.Tier, c []int32) bool {
				return t == eng.Thorough || kinds[c[5]].limit == 0 && kinds[c[6]].limit == 0
			}),
			races(real, "quick: one request, or scripts of one step", func(t eng.Tier, c []int32) bool {
				return t == eng.Thorough || c[3] < 2 || len(c)-4-int(c[3]) <= 1
			}),
			red},
		Notes: []string{
			"the exchanger and the solvers run with their goroutines, channels, timers and locks redirected to a controlled scheduler",
			"interleavings are at the level of synchronisation operations (sequentially consistent); the parts \"-races\" look for data races between them in every one of those they run",
		},
	}
}

var _ = z.LitNull
