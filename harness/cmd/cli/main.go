// Command cli checks the gini command itself: it runs the binary built from
// the current source on every case of bounded families of files and options.
package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vh/eng"
	"vh/sat"
)

func bin(n string) string { return filepath.Join(os.Getenv("VERIF_BIN"), n) }

type outcome struct {
	out, err string
	code     int
}

// gini runs the command in a directory.
func gini(dir string, stdin string, args ...string) (o outcome, e error) {
	ctx, stop := context.WithTimeout(context.Background(), 60*time.Second)
	defer stop()
	c := exec.CommandContext(ctx, bin("gini"), args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOMAXPROCS=2")
	c.Stdin = strings.NewReader(stdin)
	var ob, eb bytes.Buffer
	c.Stdout, c.Stderr = &ob, &eb
	x := c.Run()
	o.out, o.err = ob.String(), eb.String()
	defer func() { note(&o) }()
	if ctx.Err() != nil {
		return o, fmt.Errorf("gini %v does not end", args)
	}
	if x != nil {
		ee, ok := x.(*exec.ExitError)
		if !ok {
			return o, fmt.Errorf("gini %v: %v", args, x)
		}
		o.code = ee.ExitCode()
		if o.code < 0 || o.code == 2 && !strings.Contains(o.err, "flag") {
			return o, fmt.Errorf("gini %v dies: %v\n%s", args, x, tail(o.err))
		}
	}
	return o, nil
}

var calls int64 // calls of the command so far

// note counts an outcome; what depends on time is left out.
func note(o *outcome) {
	calls++
	h := eng.NewH()
	for _, l := range strings.Split(o.out, "\n") {
		if !strings.HasPrefix(l, "c") {
			h.S(l)
		}
	}
	h.I(o.code)
	eng.State(uint64(h))
}

// counted makes a part count calls of the command as transitions.
func counted(ps []*eng.Part) []*eng.Part {
	for _, p := range ps {
		run := p.Run
		p.Run = func(c []int32, cov *eng.Cov) error {
			n := calls
			e := run(c, cov)
			cov.Trans += calls - n
			return e
		}
	}
	return ps
}

func tail(s string) string {
	if len(s) > 800 {
		return "..." + s[len(s)-800:]
	}
	return s
}

// answer is what the command says about one problem.
type answer struct {
	res  int
	v    map[int]bool
	hasV bool
	f    []int
	hasF bool
}

func parse(out string) (as []answer, e error) {
	if out == "" {
		return nil, nil
	}
	if !strings.HasSuffix(out, "\n") {
		return nil, fmt.Errorf("the output does not end with a line end: %q", out)
	}
	vEnd := false
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		var cur *answer
		if len(as) > 0 {
			cur = &as[len(as)-1]
		}
		w := strings.Fields(l)
		if cur != nil && cur.hasV && !vEnd && !strings.HasPrefix(l, "v") {
			return nil, fmt.Errorf("values end without 0 before %q", l)
		}
		switch {
		case l == "c" || strings.HasPrefix(l, "c "):
		case l == "s SATISFIABLE":
			as = append(as, answer{res: 1})
			vEnd = false
		case l == "s UNSATISFIABLE":
			as = append(as, answer{res: -1})
		case l == "s UNKNOWN":
			as = append(as, answer{})
		case l == "v" || strings.HasPrefix(l, "v "):
			if cur == nil || cur.res != 1 || vEnd {
				return nil, fmt.Errorf("values out of place: %q", l)
			}
			if !cur.hasV {
				cur.hasV = true
				cur.v = map[int]bool{}
			}
			for _, x := range w[1:] {
				i, e := strconv.Atoi(x)
				if e != nil || vEnd {
					return nil, fmt.Errorf("bad value line %q", l)
				}
				if i == 0 {
					vEnd = true
					continue
				}
				a := i
				if i < 0 {
					a = -i
				}
				if _, ok := cur.v[a]; ok {
					return nil, fmt.Errorf("variable %d has two values", a)
				}
				cur.v[a] = i > 0
			}
		case l == "f" || strings.HasPrefix(l, "f "):
			if cur == nil || cur.res != -1 {
				return nil, fmt.Errorf("failed assumptions out of place: %q", l)
			}
			cur.hasF = true
			for _, x := range w[1:] {
				i, e := strconv.Atoi(x)
				if e != nil {
					return nil, fmt.Errorf("bad line of failed assumptions %q", l)
				}
				if i != 0 {
					cur.f = append(cur.f, i)
				}
			}
		default:
			return nil, fmt.Errorf("unexpected output %q", l)
		}
	}
	if n := len(as); n > 0 && as[n-1].hasV && !vEnd {
		return nil, fmt.Errorf("values end without 0")
	}
	return as, nil
}

// problem is a formula under assumptions.
type problem struct {
	nv int // at most 20
	cs [][]int
	as []int
	// unit problems have many variables: each has at most one unit clause
	units []int
	fixed int // the answer, where it is known beforehand
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

func (p *problem) bs() sat.BS { return sat.Full(p.nv).WithClauses(p.cs) }

func (p *problem) truth() int {
	if p.fixed != 0 {
		return p.fixed
	}
	if p.units != nil {
		u := map[int]bool{}
		for _, l := range append(append([]int(nil), p.units...), p.as...) {
			if u[-l] {
				return -1
			}
			u[l] = true
		}
		return 1
	}
	if p.bs().With(p.as...).Empty() {
		return -1
	}
	return 1
}

// maxVar is the largest variable that occurs.
func (p *problem) maxVar() (m int) {
	see := func(ls []int) {
		for _, l := range ls {
			if abs(l) > m {
				m = abs(l)
			}
		}
	}
	for _, c := range p.cs {
		see(c)
	}
	see(p.as)
	see(p.units)
	return
}

// check judges an answer; withV and withF say whether a model and failed
// assumptions were asked for.
func (p *problem) check(a *answer, withV, withF, mayGiveUp bool) error {
	if mayGiveUp && a.res == 0 {
		if a.hasV || a.hasF {
			return fmt.Errorf("values or failed assumptions after UNKNOWN")
		}
		return nil
	}
	w := p.truth()
	if a.res != w {
		return fmt.Errorf("the answer is %d, the truth is %d", a.res, w)
	}
	if a.hasV != (withV && w == 1) {
		return fmt.Errorf("values printed: %v, asked for: %v", a.hasV, withV)
	}
	if a.hasF != (withF && w == -1) {
		return fmt.Errorf("failed assumptions printed: %v, asked for: %v", a.hasF, withF)
	}
	if a.hasV {
		for i := 1; i <= p.maxVar(); i++ {
			if _, ok := a.v[i]; !ok {
				return fmt.Errorf("no value for variable %d", i)
			}
		}
		holds := func(c []int) bool {
			for _, l := range c {
				if a.v[abs(l)] == (l > 0) {
					return true
				}
			}
			return false
		}
		for _, c := range p.cs {
			if !holds(c) {
				return fmt.Errorf("the values %v do not satisfy clause %v", a.v, c)
			}
		}
		for _, l := range append(append([]int(nil), p.units...), p.as...) {
			if !holds([]int{l}) {
				return fmt.Errorf("the values do not satisfy %d", l)
			}
		}
	}
	if a.hasF {
		for _, l := range a.f {
			ok := false
			for _, x := range p.as {
				ok = ok || x == l
			}
			if !ok {
				return fmt.Errorf("failed assumption %d was not assumed", l)
			}
		}
		q := *p
		q.as = a.f
		if q.truth() != -1 {
			return fmt.Errorf("the failed assumptions %v do not suffice", a.f)
		}
	}
	return nil
}

func dimacs(nv int, cs [][]int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "p cnf %d %d\n", nv, len(cs))
	for _, c := range cs {
		for _, l := range c {
			fmt.Fprintf(&b, "%d ", l)
		}
		b.WriteString("0\n")
	}
	return b.String()
}

func put(dir, name, text string) {
	p := filepath.Join(dir, name)
	if e := os.WriteFile(p, []byte(text), 0o644); e != nil {
		panic(e)
	}
}

func gz(s string) string {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.Write([]byte(s))
	w.Close()
	return b.String()
}

func bz(name string) string {
	b, e := base64.StdEncoding.DecodeString(bz2s[name])
	if e != nil {
		panic(e)
	}
	return string(b)
}

func assumeArgs(as []int) []string {
	if len(as) == 0 {
		return nil
	}
	var s []string
	for _, a := range as {
		s = append(s, strconv.Itoa(a))
	}
	return []string{"-assume", strings.Join(s, ",")}
}

// formulas of the family, by tier.
var pool = sat.AllClauses(3, 0, 3)

func formulas(t eng.Tier) (fs [][]int) {
	k := t.Pick(3, 4)
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		fs = append(fs, append([]int(nil), cur...))
		if len(cur) == k {
			return
		}
		for i := from; i < len(pool); i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	return
}

var famCache = map[eng.Tier][][]int{}

func fam(t eng.Tier) [][]int {
	if famCache[t] == nil {
		famCache[t] = formulas(t)
	}
	return famCache[t]
}

func clauses(f []int) (cs [][]int) {
	for _, i := range f {
		cs = append(cs, pool[i])
	}
	return
}

var asLists = [][]int{nil, {1}, {-1, -2}, {2, -2}, {3, -1, 3}, {-5}, {1, 2, 3, -4, -6}}

const batch = 16

// options of part cnf, by bits
var optNames = []string{"-model", "-failed", "-stats", "-mon=1ms"}

func optArgs(o int32) (r []string) {
	for i, n := range optNames {
		if o>>uint(i)&1 == 1 {
			r = append(r, n)
		}
	}
	return
}

func expectAll(o outcome, ps []*problem, withV, withF, mayGiveUp bool) error {
	as, e := parse(o.out)
	if e != nil {
		return fmt.Errorf("%v\noutput: %s", e, tail(o.out))
	}
	if len(as) != len(ps) {
		return fmt.Errorf("%d answers for %d problems\noutput: %s\nstderr: %s", len(as), len(ps), tail(o.out), tail(o.err))
	}
	for i := range ps {
		if e := ps[i].check(&as[i], withV, withF, mayGiveUp); e != nil {
			return fmt.Errorf("problem %d (%v under %v): %v\noutput: %s", i+1, ps[i].cs, ps[i].as, e, tail(o.out))
		}
	}
	return nil
}

func exitCode(res int) int {
	switch res {
	case 1:
		return 10
	case -1:
		return 20
	}
	return 0
}

func runBatch(extra []string, o int32, ai int, start int, t eng.Tier, cov *eng.Cov) error {
	d := eng.Scratch()
	var ps []*problem
	args := append(append([]string(nil), extra...), optArgs(o)...)
	args = append(args, assumeArgs(asLists[ai])...)
	fs := fam(t)
	for i := 0; i < batch && start+i < len(fs); i++ {
		n := fmt.Sprintf("f%d.cnf", i)
		cs := clauses(fs[start+i])
		put(d, n, dimacs(3, cs))
		ps = append(ps, &problem{nv: 6, cs: cs, as: asLists[ai]})
		args = append(args, n)
	}
	r, e := gini(d, "", args...)
	if e != nil {
		return e
	}
	if r.code != 0 {
		return fmt.Errorf("exit code %d\n%s", r.code, tail(r.err))
	}
	cov.Add("problems", int64(len(ps)))
	cov.Traces += int64(len(ps))
	cov.Nontriv++
	return expectAll(r, ps, o&1 != 0, o&2 != 0, false)
}

// runOne runs one formula with -satcomp.
func runOne(extra []string, o int32, ai int, f int, how int32, t eng.Tier, cov *eng.Cov) error {
	d := eng.Scratch()
	cs := clauses(fam(t)[f])
	args := append([]string{"-satcomp"}, extra...)
	args = append(args, optArgs(o)...)
	args = append(args, assumeArgs(asLists[ai])...)
	in := ""
	text := dimacs(3, cs)
	switch how {
	case 0:
		put(d, "g.cnf", text)
		args = append(args, "g.cnf")
	case 1:
		in = text
	case 2:
		in = text
		args = append(args, "-")
	}
	r, e := gini(d, in, args...)
	if e != nil {
		return e
	}
	p := &problem{nv: 6, cs: cs, as: asLists[ai]}
	cov.Traces++
	cov.Nontriv++
	if e := expectAll(r, []*problem{p}, o&1 != 0, o&2 != 0, false); e != nil {
		return e
	}
	if r.code != exitCode(p.truth()) {
		return fmt.Errorf("exit code %d, should be %d", r.code, exitCode(p.truth()))
	}
	return nil
}

func c26() *eng.Prop {
	cnf := &eng.Part{
		Name: "cnf",
		Desc: "every set of at most 3 (thorough 4) of the 27 clauses over 3 variables, 16 files per call, times -model, -failed, -stats and -mon, times 7 lists of assumptions",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for s := 0; s < len(fam(t)); s += batch {
				for o := int32(0); o < 16; o++ {
					if o&12 != 0 && o&3 != 3 {
						continue
					}
					for a := range asLists {
						if !yield([]int32{o, int32(a), int32(s)}) {
							return
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			return runBatch(nil, c[0], int(c[1]), int(c[2]), eng.CurTier(), cov)
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("%v assume %v formulas from %d", optArgs(c[0]), asLists[c[1]], c[2])
		},
		Hang: 3 * time.Minute,
	}
	comp := &eng.Part{
		Name: "satcomp",
		Desc: "every 3rd (thorough: every) formula of that family, one per call with -satcomp -model -failed, as a file, on standard input, and as -, times 4 lists of assumptions; exit codes",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for f := 0; f < len(fam(t)); f += t.Pick(3, 1) {
				for _, a := range []int32{0, 2, 4, 6} {
					if !yield([]int32{3, a, int32(f), int32((f/3 + int(a)/2) % 3)}) {
						return
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			return runOne(nil, c[0], int(c[1]), int(c[2]), c[3], eng.CurTier(), cov)
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("%v assume %v formula %v mode %d", optArgs(c[0]), asLists[c[1]], clauses(fam(eng.CurTier())[c[2]]), c[3])
		},
		Hang: 3 * time.Minute,
	}
	return &eng.Prop{ID: "C26", Level: "model_checking",
		Rule:  "a case is non-trivial if the command has to answer something",
		Parts: counted([]*eng.Part{cnf, comp, icnfPart(), wide(), theorems(), files(), flags(), crispPart(), timeouts()}),
		Notes: []string{"the exit code without -satcomp, and with -satcomp for icnf files, is not judged beyond being 0 when all went well", "what an interrupt (SIGINT) prints is not covered"},
	}
}

// ------------------------------------------------------------------- icnf

type icnfItem struct {
	text string
	cl   []int
	cube bool
}

var icnfItems = []icnfItem{
	{"1 2 0\n", []int{1, 2}, false},
	{"-1 3 0\n", []int{-1, 3}, false},
	{"-2 0\n", []int{-2}, false},
	{"0\n", nil, false},
	{"a 0\n", nil, true},
	{"a -1 0\n", []int{-1}, true},
	{"a -3 1 0\n", []int{-3, 1}, true},
	{"a 2 -2 0\n", []int{2, -2}, true},
	{"a 7 2 2 0\n", []int{7, 2, 2}, true},
}

func icnfText(s []int32) (string, []*problem) {
	t := "p inccnf\n"
	var ps []*problem
	var cs [][]int
	for _, i := range s {
		x := icnfItems[i]
		t += x.text
		if x.cube {
			ps = append(ps, &problem{nv: 7, cs: append([][]int(nil), cs...), as: x.cl})
		} else {
			cs = append(cs, x.cl)
		}
	}
	return t, ps
}

var icnfModes = [][]string{nil, {"-ax"}, {"-satcomp"}, {"-model", "-failed", "-ax", "-satcomp"}}

func icnfPart() *eng.Part {
	return &eng.Part{
		Name: "icnf",
		Desc: "every sequence of up to 4 (thorough 5) of 4 clauses and 5 cubes; plainly and with -ax, 16 scripts per call for files, one per call on the way with -satcomp (every 7th script)",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			n := t.Pick(4, 5)
			tot := 0
			k := 1
			for l := 1; l <= n; l++ {
				k *= len(icnfItems)
				tot += k
			}
			for s := 0; s < tot; s += batch {
				for m := int32(0); m < 2; m++ {
					if !yield([]int32{m, int32(s)}) {
						return
					}
				}
			}
			for s := 0; s < tot; s += 7 {
				for m := int32(2); m < 4; m++ {
					if !yield([]int32{m, int32(s)}) {
						return
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			d := eng.Scratch()
			args := append([]string(nil), icnfModes[c[0]]...)
			var ps []*problem
			n := batch
			if c[0] >= 2 {
				n = 1
			}
			for i := 0; i < n; i++ {
				s := icnfSeq(int(c[1]) + i)
				if len(s) > eng.CurTier().Pick(4, 5) {
					break
				}
				t, p := icnfText(s)
				name := fmt.Sprintf("i%d.icnf", i)
				put(d, name, t)
				args = append(args, name)
				ps = append(ps, p...)
			}
			r, e := gini(d, "", args...)
			if e != nil {
				return e
			}
			if r.code != 0 {
				return fmt.Errorf("exit code %d\n%s", r.code, tail(r.err))
			}
			cov.Traces += int64(len(ps))
			cov.Nontriv++
			if e := expectAll(r, ps, false, false, false); e != nil {
				return e
			}
			return solvedLines(r.out)
		},
		Show: func(c []int32) string { return fmt.Sprintf("%v %v...", icnfModes[c[0]], icnfSeq(int(c[1]))) },
		Hang: 3 * time.Minute,
	}
}

// solvedLines checks comments that count solved cubes.
func solvedLines(out string) error {
	n, k := 0, 0
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "s ") {
			n++
			if l != "s UNKNOWN" {
				k++
			}
		}
		var a, b int
		if m, _ := fmt.Sscanf(l, "c solved %d/%d", &a, &b); m == 2 {
			if a != k || b != n {
				return fmt.Errorf("%q after %d answers of which %d are known", l, n, k)
			}
			n, k = 0, 0
		}
	}
	return nil
}

// icnfSeq is the i'th nonempty sequence of items.
func icnfSeq(i int) []int32 {
	b := len(icnfItems)
	l, k := 1, b
	for i >= k {
		i -= k
		k *= b
		l++
	}
	s := make([]int32, l)
	for j := l - 1; j >= 0; j-- {
		s[j] = int32(i % b)
		i /= b
	}
	return s
}

// ------------------------------------------------------------------- wide

func wide() *eng.Part {
	return &eng.Part{
		Name: "wide",
		Desc: "units over 1 to 130 variables (thorough 1100), numbered from 1, 95 or 9990 on, under 4 sign patterns: -model prints all values, -failed all that is needed, however many lines that takes",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for n := int32(1); n <= int32(t.Pick(130, 1100)); n++ {
				for pat := int32(0); pat < 4; pat++ {
					for _, off := range []int32{0, 94, 9989} {
						if off != 0 && pat > 1 {
							continue
						}
						for m := int32(0); m < 3; m++ {
							if !yield([]int32{n, pat, off, m}) {
								return
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			d := eng.Scratch()
			var us []int
			for i := 1; i <= int(c[0]); i++ {
				s := 1
				switch c[1] {
				case 1:
					s = -1
				case 2:
					s = 1 - 2*(i&1)
				case 3:
					s = 1 - i/3&1*2
				}
				us = append(us, s*(i+int(c[2])))
			}
			p := &problem{units: us}
			var cs [][]int
			var args []string
			switch c[3] {
			case 0: // all values are forced
				for _, u := range us {
					cs = append(cs, []int{u})
				}
				args = []string{"-model"}
			case 1: // all assumptions are needed
				var cl []int
				for _, u := range us {
					cl = append(cl, -u)
				}
				cs = [][]int{cl}
				args = append([]string{"-failed"}, assumeArgs(us)...)
			case 2: // values assumed
				cs = [][]int{{us[0], -us[0]}}
				args = append([]string{"-model"}, assumeArgs(us)...)
			}
			mv := abs(us[len(us)-1])
			put(d, "w.cnf", dimacs(mv, cs))
			r, e := gini(d, "", append(args, "w.cnf")...)
			if e != nil {
				return e
			}
			cov.Nontriv++
			cov.Traces++
			as, e := parse(r.out)
			if e != nil {
				return e
			}
			if len(as) != 1 {
				return fmt.Errorf("%d answers\n%s", len(as), tail(r.err))
			}
			if c[3] != 1 {
				return p.check(&as[0], true, false, false)
			}
			if as[0].res != -1 || !as[0].hasF {
				return fmt.Errorf("result %d, failed printed %v", as[0].res, as[0].hasF)
			}
			got := map[int]bool{}
			for _, l := range as[0].f {
				got[l] = true
			}
			for _, u := range us {
				if !got[u] {
					return fmt.Errorf("failed assumption %d is missing", u)
				}
				delete(got, u)
			}
			if len(got) > 0 {
				return fmt.Errorf("failed assumptions %v were not assumed", got)
			}
			return nil
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("%d variables, signs %d, from %d, mode %d", c[0], c[1], c[2]+1, c[3])
		},
		Hang: 3 * time.Minute,
	}
}

// ------------------------------------------------------------------ files

// kinds of content with the problems in it; bad ones end in an error.
type content struct {
	name string
	bad  bool
	icnf bool
	ps   []*problem // what is answered before an error, at most
}

var contents = []content{
	{name: "cnf sat", ps: []*problem{{nv: 3, cs: [][]int{{1, -2}, {2, 3}, {-1}}}}},
	{name: "cnf unsat", ps: []*problem{{nv: 2, cs: [][]int{{1, 2}, {-1}, {-2}}}}},
	{name: "icnf", icnf: true, ps: []*problem{
		{nv: 2, cs: [][]int{{1, 2}}, as: []int{-1}},
		{nv: 2, cs: [][]int{{1, 2}}, as: []int{-1, -2}},
		{nv: 2, cs: [][]int{{1, 2}, {-2}}},
		{nv: 2, cs: [][]int{{1, 2}, {-2}}, as: []int{2}}}},
	{name: "broken cnf", bad: true},
	{name: "cut cnf", bad: true},
	{name: "broken icnf", icnf: true, bad: true, ps: []*problem{{nv: 2, cs: [][]int{{1}}, as: []int{1}}}},
	{name: "text", bad: true},
	{name: "empty"},
	{name: "no file", bad: true},
	{name: "directory", bad: true},
}

// ways to store and name it
var exts = []string{".cnf", ".icnf", ".cnf.gz", ".icnf.gz", ".cnf.bz2", ".icnf.bz2", ".txt", "", ".gz", ".cnf.GZ", ".cnf.gz.bak"}

const (
	stPlain = iota // stored as named
	stOther        // stored otherwise
	stCut          // compressed, cut
	stLink         // a symbolic link to it
)

// stored makes a file and says what should become of it: the answers, and
// whether there must be an error.
func stored(dir, base string, c content, ext string, how int32) (name string, ps []*problem, bad, open bool) {
	name = base + ext
	os.RemoveAll(filepath.Join(dir, name))
	switch c.name {
	case "no file":
		return name, nil, true, false
	case "directory":
		os.Mkdir(filepath.Join(dir, name), 0o755)
		return name, nil, true, false
	}
	text := texts[c.name]
	comp := ""
	switch {
	case strings.HasSuffix(ext, ".gz"):
		comp = "gz"
	case strings.HasSuffix(ext, ".bz2"):
		comp = "bz2"
	}
	enc := func(k string) string {
		switch k {
		case "gz":
			return gz(text)
		case "bz2":
			return bz(c.name)
		}
		return text
	}
	data := enc(comp)
	switch how {
	case stOther:
		if comp == "" {
			data = enc("gz")
		} else {
			data = enc("")
		}
	case stCut:
		if len(data) > 3 {
			data = data[:len(data)-3]
		}
	}
	if how == stLink {
		put(dir, "target-"+name, data)
		os.Symlink("target-"+name, filepath.Join(dir, name))
	} else {
		put(dir, name, data)
	}
	known := false
	isI := false
	for _, x := range []string{".cnf", ".cnf.gz", ".cnf.bz2"} {
		known = known || ext == x
	}
	for _, x := range []string{".icnf", ".icnf.gz", ".icnf.bz2"} {
		if ext == x {
			known, isI = true, true
		}
	}
	switch {
	case !known:
		return name, nil, true, false
	case how == stOther:
		return name, nil, true, false
	case how == stCut && comp != "":
		// some of it may have been read
		if isI && c.icnf {
			return name, c.ps, true, false
		}
		return name, nil, true, false
	case how == stCut:
		return name, nil, false, true // another text
	case c.name == "empty":
		return name, nil, false, true // taken as empty, or refused
	case isI != c.icnf:
		return name, nil, true, false
	}
	return name, c.ps, c.bad, false
}

func files() *eng.Part {
	return &eng.Part{
		Name: "files",
		Desc: "10 kinds of content (good, malformed, cut, empty, missing, a directory) times 11 names times stored as named, otherwise, cut, or behind a link; alone with and without -satcomp, and between two good files",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for c := range contents {
				for x := range exts {
					for how := int32(0); how < 4; how++ {
						for m := int32(0); m < 4; m++ {
							if !yield([]int32{int32(c), int32(x), how, m}) {
								return
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			d := filepath.Join(eng.Scratch(), "files")
			os.RemoveAll(d)
			os.Mkdir(d, 0o755)
			defer os.RemoveAll(d)
			ct := contents[c[0]]
			name, ps, bad, open := stored(d, "x", ct, exts[c[1]], c[2])
			put(d, "a.cnf", "p cnf 1 1\n-1 0\n")
			put(d, "b.cnf", "p cnf 1 2\n-1 0\n1 0\n")
			var args []string
			switch c[3] {
			case 0:
				args = []string{name}
			case 1:
				args = []string{"-satcomp", "-model", name}
			case 2:
				args = []string{"-model", "a.cnf", name, "b.cnf"}
			case 3:
				args = []string{"-ax", name, name}
			}
			r, e := gini(d, "", args...)
			if e != nil {
				return e
			}
			cov.Nontriv++
			as, e := parse(r.out)
			if e != nil {
				return e
			}
			withV := c[3] == 1 || c[3] == 2
			if ct.icnf {
				withV = false
			}
			if c[3] == 2 {
				if len(as) < 2 {
					return fmt.Errorf("%d answers, 2 files are good\n%s", len(as), tail(r.err))
				}
				if e := (&problem{nv: 1, cs: [][]int{{-1}}}).check(&as[0], true, false, false); e != nil {
					return fmt.Errorf("first file: %v", e)
				}
				if e := (&problem{nv: 1, cs: [][]int{{-1}, {1}}}).check(&as[len(as)-1], true, false, false); e != nil {
					return fmt.Errorf("third file: %v", e)
				}
				as = as[1 : len(as)-1]
			}
			if open {
				return nil
			}
			if c[3] == 3 && !bad {
				ps = append(append([]*problem(nil), ps...), ps...)
			}
			if c[3] != 3 || !bad {
				if len(as) > len(ps) || len(as) < len(ps) && !bad {
					return fmt.Errorf("%d answers for %d problems\n%s", len(as), len(ps), tail(r.err))
				}
				for i := range as {
					if e := ps[i].check(&as[i], withV, false, false); e != nil {
						return fmt.Errorf("problem %d: %v", i+1, e)
					}
				}
				cov.Traces += int64(len(as))
			} else if len(ps) == 0 && len(as) > 0 {
				return fmt.Errorf("%d answers for no problem", len(as))
			}
			if bad {
				cov.Inc("errors expected")
				if !strings.Contains(strings.ReplaceAll(strings.ToLower(r.err), "[gini]", ""), " ") || noError(r.err, name) {
					return fmt.Errorf("no error reported:\n%s", tail(r.err))
				}
				if c[3] == 1 && (r.code == 0 || r.code == 10 || r.code == 20) {
					return fmt.Errorf("exit code %d after an error", r.code)
				}
				return nil
			}
			want := 0
			if c[3] == 1 && !ct.icnf {
				want = exitCode(ps[0].truth())
			}
			if r.code != want {
				return fmt.Errorf("exit code %d, should be %d", r.code, want)
			}
			return nil
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("%s in %q, stored %d, mode %d", contents[c[0]].name, "x"+exts[c[1]], c[2], c[3])
		},
		Hang: 3 * time.Minute,
	}
}

// noError tells whether the messages say nothing beyond what they say for a
// good file.
func noError(s, name string) bool {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasSuffix(l, " "+name) || strings.HasSuffix(l, ".cnf") && !strings.Contains(l, "open ") || strings.Contains(l, "parsed dimacs in") || strings.Contains(l, "solving ") {
			continue
		}
		return false
	}
	return true
}

// ------------------------------------------------------------------ flags

func flags() *eng.Part {
	type fl struct {
		args []string
		as   []int // nil: must be refused
	}
	fls := []fl{
		{[]string{"-assume", "1"}, []int{1}},
		{[]string{"-assume", "1,-2"}, []int{1, -2}},
		{[]string{"-assume", "1", "-assume", "-2,3"}, []int{1, -2, 3}},
		{[]string{"-assume=-1"}, []int{-1}},
		{[]string{"-assume=-1,-1"}, []int{-1, -1}},
		{[]string{"-assume", "0"}, nil},
		{[]string{"-assume", ""}, nil},
		{[]string{"-assume", "1,,2"}, nil},
		{[]string{"-assume", "1,x"}, nil},
		{[]string{"-assume", "x"}, nil},
		{[]string{"-assume", "1,0"}, nil},
		{[]string{"-assume", "4294967297"}, nil},
		{[]string{"-assume", "-4294967297"}, nil},
		{[]string{"-assume", "2147483648"}, nil},
		{[]string{"-assume", "-2147483649"}, nil},
		{[]string{"-assume", "4294967296"}, nil},
		{[]string{"-assume", "99999999999999999999"}, nil},
		{[]string{"-assume", "1.5"}, nil},
	}
	return &eng.Part{
		Name: "flags",
		Desc: "18 ways to write assumptions, good and bad, with every formula of two clauses over two variables; more than one input with -satcomp; no input",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			n := len(sat.AllClauses(2, 1, 2))
			for f := range fls {
				for a := 0; a < n; a++ {
					for b := 0; b <= a; b++ {
						if !yield([]int32{int32(f), int32(a), int32(b)}) {
							return
						}
					}
				}
			}
			for i := int32(0); i < 4; i++ {
				if !yield([]int32{-1, i}) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			d := eng.Scratch()
			cov.Nontriv++
			if c[0] < 0 {
				put(d, "a.cnf", "p cnf 1 1\n-1 0\n")
				in := "p cnf 1 2\n1 0\n-1 0\n"
				p := &problem{nv: 1, cs: [][]int{{1}, {-1}}}
				q := &problem{nv: 1, cs: [][]int{{-1}}}
				switch c[1] {
				case 0:
					r, e := gini(d, "", "-satcomp", "a.cnf", "a.cnf")
					if e != nil {
						return e
					}
					if r.out != "" || r.code == 0 || r.code == 10 || r.code == 20 || r.err == "" {
						return fmt.Errorf("two inputs with -satcomp: output %q, exit code %d", r.out, r.code)
					}
				case 1:
					r, e := gini(d, in)
					if e != nil {
						return e
					}
					return expectAll(r, []*problem{p}, false, false, false)
				case 2:
					r, e := gini(d, in, "-")
					if e != nil {
						return e
					}
					return expectAll(r, []*problem{p}, false, false, false)
				case 3:
					r, e := gini(d, in, "a.cnf", "-", "a.cnf")
					if e != nil {
						return e
					}
					return expectAll(r, []*problem{q, p, q}, false, false, false)
				}
				return nil
			}
			pl := sat.AllClauses(2, 1, 2)
			cs := [][]int{pl[c[1]], pl[c[2]]}
			put(d, "x.cnf", dimacs(2, cs))
			f := fls[c[0]]
			r, e := gini(d, "", append(append([]string{"-model", "-failed"}, f.args...), "x.cnf")...)
			if e != nil {
				return e
			}
			if f.as == nil {
				if r.out != "" || r.code == 0 || r.code == 10 || r.code == 20 || r.err == "" {
					return fmt.Errorf("%q: output %q, exit code %d", f.args, r.out, r.code)
				}
				cov.Inc("errors expected")
				return nil
			}
			cov.Traces++
			return expectAll(r, []*problem{{nv: 3, cs: cs, as: f.as}}, true, true, false)
		},
		Show: func(c []int32) string {
			if c[0] < 0 {
				return fmt.Sprintf("inputs %d", c[1])
			}
			pl := sat.AllClauses(2, 1, 2)
			return fmt.Sprintf("%q %v %v", fls[c[0]].args, pl[c[1]], pl[c[2]])
		},
		Hang: 3 * time.Minute,
	}
}

// ------------------------------------------------------------------ crisp

var crispd *exec.Cmd
var crispAddr string

// server starts a crispd for this worker.
func server() (string, error) {
	if crispd != nil {
		return crispAddr, nil
	}
	sock := filepath.Join(eng.Scratch(), "sock")
	crispAddr = "@" + sock
	crispd = exec.Command(bin("crispd"), crispAddr)
	crispd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if e := crispd.Start(); e != nil {
		return "", e
	}
	for i := 0; i < 500; i++ {
		if _, e := os.Stat(sock); e == nil {
			return crispAddr, nil
		}
		time.Sleep(10 * time.Millisecond)
	}
	return "", fmt.Errorf("crispd does not start")
}

func crispPart() *eng.Part {
	return &eng.Part{
		Name: "crisp",
		Desc: "the family of part cnf over a running crispd: -model -failed times 7 lists of assumptions, 16 files per call (quick: every 3rd call), and -satcomp for every 40th formula; no server",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for s := 0; s < len(fam(t)); s += batch * t.Pick(3, 1) {
				for a := range asLists {
					if !yield([]int32{0, int32(a), int32(s)}) {
						return
					}
				}
			}
			for s := 0; s < len(fam(t)); s += 40 {
				for _, a := range []int32{0, 2, 4} {
					if !yield([]int32{1, a, int32(s)}) {
						return
					}
				}
			}
			yield([]int32{2, 0, 0})
			yield([]int32{2, 1, 0})
		},
		Run: func(c []int32, cov *eng.Cov) error {
			if c[0] == 2 {
				d := eng.Scratch()
				put(d, "g.cnf", "p cnf 1 1\n1 0\n")
				args := []string{"-crisp", "@" + filepath.Join(d, "nowhere"), "-model", "g.cnf"}
				if c[1] == 1 {
					args = append([]string{"-satcomp"}, args...)
				}
				r, e := gini(d, "", args...)
				if e != nil {
					return e
				}
				if r.out != "" || r.err == "" || c[1] == 1 && (r.code == 0 || r.code == 10 || r.code == 20) {
					return fmt.Errorf("no server: output %q, exit code %d, messages %q", r.out, r.code, r.err)
				}
				cov.Nontriv++
				return nil
			}
			a, e := server()
			if e != nil {
				return e
			}
			x := []string{"-crisp", a}
			if c[0] == 0 {
				return runBatch(x, 3, int(c[1]), int(c[2]), eng.CurTier(), cov)
			}
			return runOne(x, 3, int(c[1]), int(c[2]), 0, eng.CurTier(), cov)
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("mode %d assume %v formulas from %d", c[0], asLists[c[1]], c[2])
		},
		Hang: 3 * time.Minute,
	}
}

// --------------------------------------------------------------- timeouts

var durs = []string{"0s", "1ns", "1us", "100us", "1ms", "5ms", "20ms", "-1s"}

func timeouts() *eng.Part {
	return &eng.Part{
		Name: "timeout",
		Desc: "8 time limits on an easy and a hard formula and on icnf scripts with both, with and without -mon, -ax and -satcomp: the truth or UNKNOWN, one answer each, in time",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for d := range durs {
				for k := int32(0); k < 9; k++ {
					for rep := int32(0); rep < int32(t.Pick(1, 3)); rep++ {
						if !yield([]int32{int32(d), k, rep}) {
							return
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			d := eng.Scratch()
			_, hard := sat.Pigeons(11, 10)
			put(d, "easy.cnf", "p cnf 2 2\n1 2 0\n-1 0\n")
			put(d, "hard.cnf", dimacs(110, hard))
			it := "p inccnf\n"
			for _, cl := range hard {
				for _, l := range cl {
					it += fmt.Sprintf("%d ", l)
				}
				it += "0\n"
			}
			// the first hole free of the first pigeon: hard; both in one hole: easy
			it += "a -1 0\na 1 11 0\na 0\na 1 11 0\n111 0\na -111 0\na 111 -1 0\n"
			put(d, "hard.icnf", it)
			want := []string{"?"}
			args := []string{"-timeout", durs[c[0]], "-model"}
			switch c[1] {
			case 0:
				args = append(args, "easy.cnf")
			case 1:
				args = append(args, "hard.cnf")
			case 2:
				args = append(args, "-satcomp", "hard.cnf")
			case 3:
				args = append(args, "-satcomp", "easy.cnf")
			case 4:
				args = append(args, "-mon", "1ms", "hard.cnf")
			case 5:
				args = append(args, "easy.cnf", "hard.cnf", "easy.cnf")
				want = []string{"?", "?", "?"}
			case 6:
				args = append(args, "hard.icnf")
				want = []string{"-", "-", "-", "-", "-", "-"}
			case 7:
				args = append(args, "-ax", "hard.icnf")
				want = []string{"-", "-", "-", "-", "-", "-"}
			case 8:
				args = append(args, "-mon", "3ms", "easy.cnf", "easy.cnf")
				want = []string{"?", "?"}
			}
			t0 := time.Now()
			r, e := gini(d, "", args...)
			if e != nil {
				return e
			}
			if t := time.Since(t0); t > 40*time.Second {
				return fmt.Errorf("took %s", t)
			}
			as, e := parse(r.out)
			if e != nil {
				return e
			}
			if len(as) != len(want) {
				return fmt.Errorf("%d answers for %d problems: %s\n%s", len(as), len(want), tail(r.out), tail(r.err))
			}
			cov.Nontriv++
			easy := &problem{nv: 2, cs: [][]int{{1, 2}, {-1}}}
			for i := range as {
				isEasy := c[1] == 0 || c[1] == 3 || c[1] == 8 || c[1] == 5 && i != 1
				if isEasy {
					if e := easy.check(&as[i], true, false, true); e != nil {
						return fmt.Errorf("problem %d: %v", i+1, e)
					}
				} else if as[i].res == 1 {
					return fmt.Errorf("problem %d: satisfiable", i+1)
				}
				if as[i].res == 0 {
					cov.Inc("given up")
				} else {
					cov.Inc("answered")
				}
			}
			if c[1] == 2 || c[1] == 3 {
				if r.code != exitCode(as[0].res) {
					return fmt.Errorf("exit code %d for result %d", r.code, as[0].res)
				}
			} else if r.code != 0 {
				return fmt.Errorf("exit code %d\n%s", r.code, tail(r.err))
			}
			cov.Traces += int64(len(as))
			return solvedLines(r.out)
		},
		Show: func(c []int32) string { return fmt.Sprintf("-timeout %s, scenario %d", durs[c[0]], c[1]) },
		Hang: 3 * time.Minute,
	}
}

func main() {
	for _, n := range []string{"gini", "crispd"} {
		if _, e := os.Stat(bin(n)); e != nil {
			fmt.Fprintln(os.Stderr, "VERIF_BIN:", e)
			os.Exit(2)
		}
	}
	eng.Main(c26())
}
