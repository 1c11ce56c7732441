package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/go-air/gini/bench"
	"github.com/go-air/gini/vos"

	"vh/eng"
)

const script = `if [ "$1" = slow ]; then exec sleep 60; fi
read a b <"$1"
echo out "$1"
echo err >&2
if [ "$a" = exit ]; then exit $b; fi
exit 1
`

var lean bool

// leanEnv leaves only what the cases need in the environment, which is
// recorded with every run.
func leanEnv() {
	if lean {
		return
	}
	lean = true
	eng.Scratch()
	keep := map[string]string{}
	for _, k := range []string{"PATH", "VH_EQ", "VH_NL", "VH_EMPTY"} {
		keep[k] = os.Getenv(k)
	}
	os.Clearenv()
	for k, v := range keep {
		os.Setenv(k, v)
	}
}

// Kinds of runs.
var runKinds = []struct {
	cmd     string
	ito, to time.Duration
}{
	{"sh D/run.sh", time.Minute, time.Hour},
	{"D/there-is-no-such-command -x", time.Minute, time.Hour},
	{"sh D/run.sh slow", 15 * time.Millisecond, time.Hour},
	{"sh D/run.sh slow", time.Hour, 0},
	{"sh D/run.sh", 1<<62 + 3, 1<<55 + 1},
}

func kindCmd(k int, d string) string { return strings.Replace(runKinds[k].cmd, "D", d, 1) }

// exits are the exit codes of the commands on the instances of part runs.
var (
	instFiles = []int{0, 1, 4}
	exits     = []int{10, 20, 3}
)

// judge says whether an outcome of a kind of run is right.
func judge(kind, inst, res int, er string) error {
	switch kind {
	case 0, 4:
		want, we := 0, fmt.Sprintf("exit status %d", exits[inst])
		switch exits[inst] {
		case 10:
			want = 1
		case 20:
			want = -1
		case 0:
			we = ""
		}
		if res != want || er != we {
			return fmt.Errorf("result %d error %q, should be %d %q", res, er, want, we)
		}
	case 1:
		if res != 0 || er == "" {
			return fmt.Errorf("result %d error %q, but the command does not exist", res, er)
		}
	default:
		if res != 0 || !strings.Contains(er, "killed") {
			return fmt.Errorf("result %d error %q, but the command takes too long", res, er)
		}
	}
	return nil
}

type rop struct {
	what byte // n: new run, d: do, o: reopen, x: remove, B: bad new, X: bad remove
	name string
	arg  int
}

var rops = []rop{
	{'n', "a", 0}, {'d', "a", 0}, {'d', "a", 1}, {'d', "a", 2},
	{'o', "", 0}, {'x', "a", 0},
	{'n', "b", 0}, {'d', "b", 0}, {'d', "b", 2},
	{'x', "b", 0}, {'n', "a", 1}, {'n', "b", 2}, {'n', "b", 3},
	{'B', "", 0}, {'B', "..", 0}, {'B', ".", 0}, {'B', "x/y", 0}, {'B', "../../z", 0}, {'B', "a/", 0},
	{'X', "", 0}, {'X', "..", 0}, {'X', ".", 0}, {'X', "../../wd", 0}, {'X', "a/", 0}, {'X', "../runs", 0}, {'X', "a/inst-0.run", 0},
	{'n', " c", 4}, {'n', "?", 0}, {'x', "?", 0},
}

func showRops(c []int32) string {
	var s []string
	for _, i := range c {
		o := rops[i]
		s = append(s, fmt.Sprintf("%s %q %d", map[byte]string{'n': "run", 'd': "do", 'o': "reopen", 'x': "remove", 'B': "run", 'X': "remove"}[o.what], o.name, o.arg))
	}
	return strings.Join(s, "; ")
}

// legal: instances are run in runs which there are, and the last operation is
// the only bad one.
func legal(c []int32) bool {
	have := map[string]bool{}
	bad := 0
	for k, i := range c {
		o := rops[i]
		switch o.what {
		case 'n':
			if have[o.name] {
				bad++
				if k != len(c)-1 {
					return false
				}
			}
			have[o.name] = true
		case 'd':
			if !have[o.name] {
				return false
			}
		case 'x':
			delete(have, o.name)
		case 'B', 'X':
			if k != len(c)-1 {
				return false
			}
		}
	}
	return true
}

func runRuns(c []int32, cov *eng.Cov) error {
	leanEnv()
	d := scratch()
	defer clean(d)
	putOrigins(d)
	os.WriteFile(filepath.Join(d, "run.sh"), []byte(script), 0o644)
	var names []string
	for _, f := range instFiles {
		names = append(names, origins[f].path)
	}
	os.Mkdir("wd", 0o755)
	root := []string{"wd/s", filepath.Join(d, "wd/s")}[len(c)%2]
	s, e := createSuite(len(c)%3 == 0, root, names)
	if e != nil {
		return e
	}
	kinds := map[string]int{}
	done := map[string]map[int]bool{}
	for _, i := range c {
		o := rops[i]
		cov.Trans++
		before := tree(d)
		skip := "?"
		refused := false
		var err error
		switch o.what {
		case 'n', 'B':
			k := runKinds[o.arg]
			var r *bench.Run
			r, err = s.Run(o.name, kindCmd(o.arg, d), k.ito, k.to)
			_, dup := kinds[o.name]
			refused = dup || o.what == 'B'
			if err == nil && !refused {
				kinds[o.name] = o.arg
				done[o.name] = map[int]bool{}
				skip = "wd/s/runs/" + o.name
				if r.Name != o.name || r.Cmd != kindCmd(o.arg, d) || r.Timeout != k.to || r.InstTimeout != k.ito {
					return fmt.Errorf("the run says: %s", showRun(r))
				}
				if r.Len() != len(names) {
					return fmt.Errorf("the run is on %d instances", r.Len())
				}
			}
		case 'd':
			var r *bench.Run
			for _, x := range s.Runs {
				if x.Name == o.name {
					r = x
				}
			}
			if r == nil {
				return fmt.Errorf("run %q is not in the suite", o.name)
			}
			var ir *bench.InstRun
			wd, _ := os.Getwd()
			ir, err = r.Do(o.arg)
			if w, _ := os.Getwd(); w != wd {
				return fmt.Errorf("the working directory is now %s", w)
			}
			refused = done[o.name][o.arg]
			if err == nil && !refused {
				done[o.name][o.arg] = true
				skip = fmt.Sprintf("wd/s/runs/%s/inst-%d.run", o.name, o.arg)
				if e := judge(kinds[o.name], o.arg, ir.Result, ir.Error); e != nil {
					return e
				}
				if ir.Inst != o.arg || ir.Run != r {
					return fmt.Errorf("the result is of something else")
				}
			}
		case 'o':
			s, err = bench.OpenSuite(root)
		case 'x', 'X':
			err = s.RemoveRun(o.name)
			if o.what == 'X' {
				refused = true
			} else {
				delete(kinds, o.name)
				delete(done, o.name)
				for k := range before {
					if k == "wd/s/runs/"+o.name || strings.HasPrefix(k, "wd/s/runs/"+o.name+"/") {
						delete(before, k)
					}
				}
			}
		}
		if err != nil && !refused {
			return fmt.Errorf("%s: %v", showRops([]int32{i}), err)
		}
		if err == nil && refused {
			return fmt.Errorf("%s: accepted", showRops([]int32{i}))
		}
		if x := treeDiff(before, tree(d), skip); x != nil {
			return fmt.Errorf("%s: %v", showRops([]int32{i}), x)
		}
	}
	a, e := shoot(s)
	if e != nil {
		return e
	}
	s2, e := bench.OpenSuite(root)
	if e != nil {
		return e
	}
	b, e := shoot(s2)
	if e != nil {
		return e
	}
	if e := same(a, b); e != nil {
		return e
	}
	if len(b.Runs) != len(kinds) {
		return fmt.Errorf("%d runs, should be %d", len(b.Runs), len(kinds))
	}
	h := eng.NewH()
	for _, r := range s2.Runs {
		want := done[r.Name]
		if len(r.InstRuns) != len(want) {
			return fmt.Errorf("run %q has %d results, should be %d", r.Name, len(r.InstRuns), len(want))
		}
		h.S(r.Name)
		for j, ir := range r.InstRuns {
			if !want[ir.Inst] || j > 0 && r.InstRuns[j-1].Inst >= ir.Inst {
				return fmt.Errorf("run %q: results of the wrong instances", r.Name)
			}
			if e := judge(kinds[r.Name], ir.Inst, ir.Result, ir.Error); e != nil {
				return fmt.Errorf("run %q: %v", r.Name, e)
			}
			h.I(ir.Inst)
			h.I(ir.Result)
		}
	}
	eng.State(uint64(h))
	if len(b.Runs) > 0 {
		cov.Nontriv++
	}
	cov.Traces++
	return nil
}

func runsPart() *eng.Part {
	return &eng.Part{
		Name: "runs",
		Desc: fmt.Sprintf("every sequence of up to 4 (thorough 5) of %d operations on a suite of 3 instances: start runs of 5 kinds, run instances, reopen, remove runs, and names which reach elsewhere; after each, nothing else has changed in or around the suite; at the end the reopened suite is the same, and its results are right", len(rops)),
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			var rec func(c []int32, n int) bool
			rec = func(c []int32, n int) bool {
				if len(c) == n {
					return yield(append([]int32{}, c...))
				}
				for i := range rops {
					c2 := append(c[:len(c):len(c)], int32(i))
					if legal(c2) && !rec(c2, n) {
						return false
					}
				}
				return true
			}
			for n := 1; n <= t.Pick(4, 5); n++ {
				if !rec(nil, n) {
					return
				}
			}
		},
		Run:  runRuns,
		Show: showRops,
		Hang: 3 * time.Minute,
	}
}

// ------------------------------------------------------------- crash

// A session: create a suite and run on it.
type session struct {
	link  bool
	files []int
	runs  []int // kinds
	dos   []int // instances done in each run
}

func (s session) String() string {
	var fs []int32
	for _, f := range s.files {
		fs = append(fs, int32(f))
	}
	return fmt.Sprintf("link %v %s runs of kinds %v on instances %v", s.link, showFiles(fs), s.runs, s.dos)
}

func sessions(t eng.Tier) (r []session) {
	for _, l := range []bool{false, true} {
		for n := 0; n <= t.Pick(3, 4); n++ {
			for rot := 0; rot < n || rot == 0; rot++ {
				s := session{link: l}
				for i := 0; i < n; i++ {
					s.files = append(s.files, []int{0, 1, 4, 6}[(i+rot)%n])
				}
				r = append(r, s)
			}
		}
		for _, k := range []int{0, 1, 2} {
			for _, dos := range [][]int{nil, {0}, {1}, {0, 1}, {2, 0}, {0, 1, 2}} {
				r = append(r, session{l, instFiles, []int{k}, dos})
			}
		}
		r = append(r, session{l, instFiles, []int{0, 1}, []int{0, 1}})
		r = append(r, session{l, instFiles, []int{0, 0}, []int{1, 2}})
	}
	return
}

var crashModes = []string{"", "fails", "fails half way", "is the last", "is the last, half way"}

func runCrash(c []int32, cov *eng.Cov) error {
	leanEnv()
	ss := sessions(eng.CurTier())[c[0]]
	mode := int(c[1])
	only := 0
	if len(c) > 2 {
		only = int(c[2])
	}
	for k := 1; ; k++ {
		if only != 0 && k != only {
			if k > only {
				return nil
			}
			continue
		}
		n, e := crashAt(ss, mode, k, cov)
		if e != nil {
			if n < k {
				return fmt.Errorf("with no failure: %v", e)
			}
			return fmt.Errorf("operation %d %s: %v", k, crashModes[mode], e)
		}
		eng.Beat()
		if n < k {
			return nil
		}
	}
}

func crashAt(ss session, mode, k int, cov *eng.Cov) (n int, e error) {
	d := scratch()
	defer clean(d)
	putOrigins(d)
	os.WriteFile(filepath.Join(d, "run.sh"), []byte(script), 0o644)
	var names []string
	for _, f := range ss.files {
		names = append(names, origins[f].path)
	}
	cov.Trans++
	vos.Plan(mode, k)
	type doneRun struct {
		kind  int
		ok    bool
		head  string
		insts map[int]string
		r     *bench.Run
	}
	runs := map[string]*doneRun{}
	s, ce := createSuite(ss.link, "s", names)
	if ce == nil {
		for i, kind := range ss.runs {
			nm := fmt.Sprintf("r%d", i)
			r, re := s.Run(nm, kindCmd(kind, d), runKinds[kind].ito, runKinds[kind].to)
			dr := &doneRun{kind: kind, ok: re == nil, insts: map[int]string{}, r: r}
			runs[nm] = dr
			if re != nil {
				break
			}
			for _, j := range ss.dos {
				ir, ie := r.Do(j)
				if ie != nil {
					break
				}
				dr.insts[j] = showInst(ir)
			}
		}
	}
	n = vos.Done()
	if w, _ := os.Getwd(); w != d {
		return n, fmt.Errorf("the working directory is now %s", w)
	}
	o, oe := bench.OpenSuite("s")
	if oe != nil {
		if ce == nil {
			return n, fmt.Errorf("the suite was created, but opening it says: %v", oe)
		}
		cov.Inc("does not open")
		return n, nil
	}
	cov.Inc("opens")
	if e := right(o, "s", names, ss.files); e != nil {
		return n, fmt.Errorf("the suite opens (creation said %v), but: %v", ce, e)
	}
	h := eng.NewH()
	found := map[string]bool{}
	for _, r := range o.Runs {
		dr := runs[r.Name]
		if dr == nil || found[r.Name] {
			return n, fmt.Errorf("unknown run %q", r.Name)
		}
		found[r.Name] = true
		h.S(r.Name)
		irs := r.InstRuns
		if dr.ok {
			m := *dr.r
			m.InstRuns = nil
			r2 := *r
			r2.InstRuns = nil
			if showRun(&m) != showRun(&r2) {
				return n, fmt.Errorf("the run was\n%sand is\n%s", showRun(&m), showRun(&r2))
			}
		} else if kk := runKinds[dr.kind]; r.Cmd != kindCmd(dr.kind, d) || r.InstTimeout != kk.ito || r.Timeout != kk.to || r.NumCPU == 0 || r.Start.IsZero() || r.Env["VH_EQ"] != "a=b=c" || len(r.Env) != 4 {
			return n, fmt.Errorf("a run that could not be started opens as\n%s", showRun(r))
		}
		got := map[int]bool{}
		for _, ir := range irs {
			h.I(ir.Inst)
			got[ir.Inst] = true
			want, ok := dr.insts[ir.Inst]
			if ok && want != showInst(ir) {
				return n, fmt.Errorf("result was\n%s\nand is\n%s", want, showInst(ir))
			}
			if !ok {
				if e := judge(dr.kind, ir.Inst, ir.Result, ir.Error); e != nil {
					return n, fmt.Errorf("a result which could not be recorded opens: %v", e)
				}
			}
		}
		for j := range dr.insts {
			if !got[j] {
				return n, fmt.Errorf("the result of instance %d of run %q is gone", j, r.Name)
			}
		}
	}
	for nm, dr := range runs {
		if dr.ok && !found[nm] {
			return n, fmt.Errorf("run %q is gone", nm)
		}
	}
	eng.State(uint64(h))
	cov.Traces++
	cov.Nontriv++
	return n, nil
}

func crash() *eng.Part {
	return &eng.Part{
		Name: "crash",
		Desc: "sessions that create a suite of 0 to 3 (thorough 4) files, copied or linked, and record runs of three kinds on it; stopped before and half way through every single file system operation, and with every one failing: what opens afterwards is complete and right, and what was recorded before is still there",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for i := range sessions(t) {
				for m := int32(1); m <= 4; m++ {
					if !yield([]int32{int32(i), m}) {
						return
					}
				}
			}
		},
		Run: runCrash,
		Show: func(c []int32) string {
			s := sessions(eng.CurTier())[c[0]].String() + ", an operation " + crashModes[c[1]]
			if len(c) > 2 {
				s += fmt.Sprint(" at ", c[2])
			}
			return s
		},
		Hang: 5 * time.Minute,
	}
}
