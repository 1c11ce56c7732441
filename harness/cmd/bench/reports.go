package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/go-air/gini/bench"
	"github.com/go-air/gini/vrand"

	"vh/eng"
)

// ------------------------------------------------------------- reports

// What one run may know about one instance.
var known = []struct {
	have       bool
	res        int
	d, u, s    time.Duration
	letter, ds string
}{
	{have: false},
	{true, 1, 1500 * time.Millisecond, 700 * time.Millisecond, 20 * time.Millisecond, "s", "1.50"},
	{true, -1, 30250 * time.Millisecond, 30 * time.Second, 250 * time.Millisecond, "u", "30.25"},
	{true, 0, 5 * time.Second, 4 * time.Second, time.Second, "?", "5.00"},
	{true, 1, 0, 0, 0, "s", "0.00"},
}

var runNames = []string{"one", "a rather long name of a run", "3"}

func synthetic(ni int, cells []int32) *bench.Suite {
	s := &bench.Suite{Root: "some/where/suite"}
	for i := 0; i < ni; i++ {
		s.Insts = append(s.Insts, fmt.Sprintf("bench-%d.cnf", i))
		s.Map = append(s.Map, fmt.Sprintf("files/with/a/longish/path/é%d.cnf", i))
		s.Hashes = append(s.Hashes, "")
	}
	for x := 0; x < len(cells)/max(ni, 1); x++ {
		r := &bench.Run{Name: runNames[x], Suite: s, Root: "some/where/suite/runs/" + runNames[x]}
		for i := 0; i < ni; i++ {
			if k := known[cells[x*ni+i]]; k.have {
				r.InstRuns = append(r.InstRuns, &bench.InstRun{Run: r, Inst: i, Result: k.res, Dur: k.d, UDur: k.u, SDur: k.s})
			}
		}
		s.Runs = append(s.Runs, r)
	}
	return s
}

func near(a, b float64) bool {
	return math.Abs(a-b) < 1e-9*(1+math.Abs(b)) || math.IsNaN(a) && math.IsNaN(b)
}

// row splits a line of a table.
func row(l string) (w []string) {
	for _, x := range strings.Split(strings.Trim(l, "|"), "|") {
		w = append(w, strings.TrimSpace(x))
	}
	return
}

func tail(s string, n int) string {
	r := []rune(s)
	if len(r) > n {
		r = r[len(r)-n:]
	}
	return strings.TrimSpace(string(r))
}

// listing compares a listing with what is known.
func listing(out string, s *bench.Suite, runs []*bench.Run, cell func(r *bench.Run, i int) (string, string)) error {
	var ls []string
	for _, l := range strings.Split(out, "\n") {
		if strings.TrimSpace(l) != "" {
			ls = append(ls, l)
		}
	}
	if len(ls) != len(s.Insts)+1 {
		return fmt.Errorf("%d lines for %d instances:\n%s", len(ls), len(s.Insts), out)
	}
	h := row(ls[0])
	if len(h) != len(runs)+2 {
		return fmt.Errorf("%d columns for %d runs:\n%s", len(h), len(runs), out)
	}
	for i, r := range runs {
		if h[i+2] != tail(r.Name, 10) {
			return fmt.Errorf("column %d is headed %q:\n%s", i, h[i+2], out)
		}
	}
	for i := range s.Insts {
		w := row(ls[i+1])
		if len(w) != len(runs)+2 || w[0] != fmt.Sprint(i) || w[1] != tail(s.Map[i], 18) {
			return fmt.Errorf("line %d is %q", i, ls[i+1])
		}
		for j, r := range runs {
			letter, ds := cell(r, i)
			f := strings.Fields(w[j+2])
			if letter == "" {
				if len(f) > 0 && (f[0] == "s" || f[0] == "u") {
					return fmt.Errorf("instance %d of run %q has no result, listed as %q", i, r.Name, w[j+2])
				}
				continue
			}
			if len(f) != 2 || f[0] != letter || f[1] != ds {
				return fmt.Errorf("instance %d of run %q is listed as %q, should be %s %s", i, r.Name, w[j+2], letter, ds)
			}
		}
	}
	return nil
}

func runReports(c []int32, cov *eng.Cov) error {
	ni := int(c[0])
	cells := c[1:]
	s := synthetic(ni, cells)
	at := func(x, i int) int32 { return cells[x*ni+i] }
	vrand.On = true
	vrand.Reset(nil)
	sum := bench.Summary(s)
	cov.Trans++
	var sumRows [][]string
	for _, l := range strings.Split(sum, "\n") {
		if strings.HasPrefix(l, "|") {
			sumRows = append(sumRows, row(l))
		}
	}
	if len(sumRows) != len(s.Runs)+1 || !strings.Contains(sum, "Suite suite\n") {
		return fmt.Errorf("summary of %d runs:\n%s", len(s.Runs), sum)
	}
	for x, r := range s.Runs {
		var n, sat, un, unk int
		var d, u, y time.Duration
		for i := 0; i < ni; i++ {
			k := known[at(x, i)]
			if !k.have {
				continue
			}
			n++
			d, u, y = d+k.d, u+k.u, y+k.s
			switch k.res {
			case 1:
				sat++
			case -1:
				un++
			default:
				unk++
			}
		}
		if a, b, c, e := bench.SolveTotal(r), bench.SatTotal(r), bench.UnsatTotal(r), bench.UnknownTotal(r); a != sat+un || b != sat || c != un || e != unk {
			return fmt.Errorf("run %d: totals %d %d %d %d, should be %d %d %d %d", x, a, b, c, e, sat+un, sat, un, unk)
		}
		rt, ut, st := bench.Times(r)
		if !near(rt, d.Seconds()) || !near(ut, u.Seconds()) || !near(st, y.Seconds()) {
			return fmt.Errorf("run %d: times %f %f %f, should be %f %f %f", x, rt, ut, st, d.Seconds(), u.Seconds(), y.Seconds())
		}
		if n > 0 && !near(bench.SolvePortion(r), float64(sat+un)/float64(n)) {
			return fmt.Errorf("run %d: portion %f of %d of %d", x, bench.SolvePortion(r), sat+un, n)
		}
		if d > 0 && u > 0 && y > 0 {
			a, b, c := bench.SolveRate(r, time.Minute)
			k := float64(sat + un)
			if !near(a, k/d.Minutes()) || !near(b, k/u.Minutes()) || !near(c, k/y.Minutes()) {
				return fmt.Errorf("run %d: rates %f %f %f for %d solved in %v %v %v", x, a, b, c, sat+un, d, u, y)
			}
		}
		want := []string{r.Name, fmt.Sprint(sat + un), fmt.Sprint(sat), fmt.Sprint(un), fmt.Sprint(unk)}
		for j, t := range []time.Duration{d, u, y} {
			_ = j
			want = append(want, fmt.Sprintf("%.2fs", t.Seconds()))
		}
		got := sumRows[x+1]
		for j := range got {
			got[j] = strings.ReplaceAll(got[j], " s", "s")
			got[j] = strings.Join(strings.Fields(got[j]), " ")
		}
		for j := range want {
			w := strings.Join(strings.Fields(want[j]), " ")
			if j >= len(got) || strings.ReplaceAll(got[j], " ", "") != strings.ReplaceAll(w, " ", "") {
				return fmt.Errorf("summary of run %d is %q, should be %q", x, got, want)
			}
		}
		cov.Trans++
	}
	cellOf := func(r *bench.Run, i int) (string, string) {
		for x := range s.Runs {
			if s.Runs[x].Name == r.Name {
				k := known[at(x, i)]
				return k.letter, k.ds
			}
		}
		return "", ""
	}
	for m := 0; m < 1<<uint(len(s.Runs)); m++ {
		pick := func(r *bench.Run) bool {
			for x, n := range runNames {
				if n == r.Name {
					return m>>uint(x)&1 != 0
				}
			}
			return false
		}
		var rs []*bench.Run
		for x, r := range s.Runs {
			if m>>uint(x)&1 != 0 {
				rs = append(rs, r)
			}
		}
		if e := listing(bench.Listing(s, pick), s, rs, cellOf); e != nil {
			return e
		}
		before := append([]*bench.Run{}, s.Runs...)
		sel := s.RunSelect(pick)
		cov.Trans += 2
		for x := range before {
			if len(s.Runs) != len(before) || s.Runs[x] != before[x] || before[x].Suite != s {
				return fmt.Errorf("RunSelect changed the suite it selects from")
			}
		}
		if len(sel.Runs) != len(rs) || len(sel.Insts) != ni || sel.Root != s.Root {
			return fmt.Errorf("RunSelect gives %d runs, should be %d", len(sel.Runs), len(rs))
		}
		for x := range rs {
			if sel.Runs[x].Name != rs[x].Name || len(sel.Runs[x].InstRuns) != len(rs[x].InstRuns) || sel.Runs[x].Suite != sel {
				return fmt.Errorf("RunSelect: run %d is not the one selected", x)
			}
		}
		for im := 0; im < 1<<uint(ni); im++ {
			if im != 1<<uint(ni)-1 && m != 1<<uint(len(s.Runs))-1 {
				continue
			}
			filt := func(_ *bench.Suite, i int) bool { return im>>uint(i)&1 != 0 }
			if im == 1<<uint(ni)-1 && m&1 != 0 {
				filt = nil
			}
			ca := bench.NewCactus(s, pick, filt)
			cov.Trans++
			if len(ca.Runs) != len(rs) || len(ca.D) != len(rs) {
				return fmt.Errorf("cactus of %d runs has %d, %d permutations", len(rs), len(ca.Runs), len(ca.D))
			}
			var mx time.Duration
			for x, r := range rs {
				if ca.Runs[x] != r {
					return fmt.Errorf("cactus: run %d is another one", x)
				}
				var want, got []int
				for _, ir := range r.InstRuns {
					if im>>uint(ir.Inst)&1 != 0 {
						want = append(want, ir.Inst)
						if ir.Dur > mx {
							mx = ir.Dur
						}
					}
				}
				for j, p := range ca.D[x] {
					if p < 0 || p >= len(r.InstRuns) {
						return fmt.Errorf("cactus: run %d has no result %d", x, p)
					}
					got = append(got, r.InstRuns[p].Inst)
					if j > 0 && r.InstRuns[ca.D[x][j-1]].Dur > r.InstRuns[p].Dur {
						return fmt.Errorf("cactus: run %d is not sorted", x)
					}
				}
				sort.Ints(got)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					return fmt.Errorf("cactus: run %d shows instances %v, should be %v", x, got, want)
				}
			}
			if ca.MaxDur != mx {
				return fmt.Errorf("cactus: longest %v, should be %v", ca.MaxDur, mx)
			}
			txt := ca.Utf8(5)
			for _, r := range rs {
				if !strings.Contains(txt, " - "+r.Name+"\n") {
					return fmt.Errorf("cactus: run %q is not in the legend of\n%s", r.Name, txt)
				}
			}
		}
	}
	for x := range s.Runs {
		for y := range s.Runs {
			for im := 0; im < 1<<uint(ni); im++ {
				sc := bench.NewScatter(s.Runs[x], s.Runs[y], func(_ *bench.Suite, i int) bool { return im>>uint(i)&1 != 0 })
				cov.Trans++
				var want, got []string
				wins, ties := [2]int{}, 0
				for i := 0; i < ni; i++ {
					a, b := known[at(x, i)], known[at(y, i)]
					if im>>uint(i)&1 != 0 && a.have && b.have {
						want = append(want, fmt.Sprint(a.d, b.d))
						switch {
						case a.d < b.d:
							wins[0]++
						case a.d > b.d:
							wins[1]++
						default:
							ties++
						}
					}
				}
				if len(sc.Xs) != len(sc.Ys) {
					return fmt.Errorf("scatter of runs %d and %d has %d, %d coordinates", x, y, len(sc.Xs), len(sc.Ys))
				}
				for i := range sc.Xs {
					got = append(got, fmt.Sprint(sc.Xs[i], sc.Ys[i]))
				}
				sort.Strings(want)
				sort.Strings(got)
				if strings.Join(got, ",") != strings.Join(want, ",") {
					return fmt.Errorf("scatter of runs %d and %d shows %v, should be %v", x, y, got, want)
				}
				txt := sc.Utf8(40)
				if !strings.Contains(txt, "★ - "+s.Runs[x].Name+" wins\n") || !strings.Contains(txt, "☆ - "+s.Runs[y].Name+" wins\n") {
					return fmt.Errorf("legend of the scatter of runs %d and %d:\n%s", x, y, txt)
				}
				// every point that one of the runs wins clearly is shown as such,
				// unless another one covers it
				st, em := strings.Count(txt, "★")-1, strings.Count(txt, "☆")-1
				if st < 0 || em < 0 || st+em > len(want) || len(want) > 0 && st+em == 0 ||
					wins[0]+ties == 0 && st > 0 || wins[1]+ties == 0 && em > 0 {
					return fmt.Errorf("scatter of runs %d and %d: %d and %d marks for %v:\n%s", x, y, st, em, want, txt)
				}
			}
		}
	}
	h := eng.NewH()
	h.S(sum)
	eng.State(uint64(h))
	cov.Traces++
	if len(s.Runs) > 0 {
		cov.Nontriv++
	}
	return nil
}

func reports() *eng.Part {
	return &eng.Part{
		Name: "reports",
		Desc: "up to 3 runs on 0 to 3 instances (3 on 3: thorough), each with no result, or one of 4: totals, times, rates, summary, listing, selections of runs, scatter and cactus data for every choice of runs and instances, against direct counts",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for ni := 0; ni <= 3; ni++ {
				for nr := 0; nr <= 3; nr++ {
					n := ni * nr
					if n > t.Pick(6, 9) || ni == 0 && nr > 0 {
						continue
					}
					c := make([]int32, 1+n)
					c[0] = int32(ni)
					var rec func(i int) bool
					rec = func(i int) bool {
						if i == n+1 {
							return yield(append([]int32{}, c...))
						}
						for k := range known {
							c[i] = int32(k)
							if !rec(i + 1) {
								return false
							}
						}
						return true
					}
					if !rec(1) {
						return
					}
				}
			}
		},
		Run:  runReports,
		Show: func(c []int32) string { return fmt.Sprintf("%d instances, results %v", c[0], c[1:]) },
	}
}

// ------------------------------------------------------------- select

func selectPart() *eng.Part {
	pats := []string{"", "*.cnf", "?.gz", "[", "none*"}
	dirs := [][]string{{"p"}, {"p", "q"}, {"gone", "q"}, {"q/r", "p"}, {}, {"p/a.cnf"}}
	files := []string{"p/a.cnf", "p/b.cnf", "q/c.gz", "q/r/d.cnf", "q/r/e", "p/a.b/f.gz"}
	return &eng.Part{
		Name: "select",
		Desc: "Select and MatchSelect of 0 to 5 files with 5 patterns from 6 lists of directories: for every sequence of random choices as many different matching files as there are and are asked for; every such choice of files comes up",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for p := range pats {
				for d := range dirs {
					for n := int32(0); n <= 5; n++ {
						if !yield([]int32{int32(p), int32(d), n}) {
							return
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			d := scratch()
			defer clean(d)
			for _, f := range files {
				os.MkdirAll(filepath.Dir(f), 0o755)
				os.WriteFile(f, []byte(f), 0o644)
			}
			pat, ds, n := pats[c[0]], dirs[c[1]], int(c[2])
			ok := map[string]bool{}
			for _, f := range files {
				in := false
				for _, x := range ds {
					in = in || f == x || strings.HasPrefix(f, x+"/")
				}
				m, _ := filepath.Match(pat, filepath.Base(f))
				if in && (pat == "" || m) {
					ok[f] = true
				}
			}
			want := n
			if len(ok) < want {
				want = len(ok)
			}
			seen := map[string]bool{}
			vrand.On = true
			vrand.Reset(nil)
			for {
				var got []string
				if pat == "" && n%2 == 0 {
					got = bench.Select(n, ds...)
				} else {
					got = bench.MatchSelect(pat, n, ds...)
				}
				cov.Trans++
				if len(got) != want {
					return fmt.Errorf("%d files %v, should be %d", len(got), got, want)
				}
				h := map[string]bool{}
				for _, f := range got {
					f = filepath.Clean(f)
					if h[f] || !ok[f] {
						return fmt.Errorf("file %s in %v", f, got)
					}
					h[f] = true
				}
				sort.Strings(got)
				seen[strings.Join(got, " ")] = true
				x := eng.NewH()
				x.S(strings.Join(got, " "))
				eng.State(uint64(x))
				s, more := vrand.Next(8)
				if !more {
					break
				}
				vrand.Reset(s)
			}
			all := 1
			for i := 0; i < want; i++ {
				all = all * (len(ok) - i) / (i + 1)
			}
			if len(seen) != all {
				return fmt.Errorf("only %d of %d choices come up", len(seen), all)
			}
			cov.Traces += int64(len(seen))
			if want > 0 {
				cov.Nontriv++
			}
			return nil
		},
		Show: func(c []int32) string { return fmt.Sprintf("%d of %q in %v", c[2], pats[c[0]], dirs[c[1]]) },
	}
}

// ------------------------------------------------------------- command

func call(d string, args ...string) (string, error) {
	c := exec.Command(filepath.Join(binDir, "bench"), args...)
	c.Dir = d
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	if x := c.Run(); x != nil {
		return "", fmt.Errorf("bench %q: %v\n%s", args, x, tail(e.String(), 600))
	}
	return o.String(), nil
}

var binDir = os.Getenv("VERIF_BIN")

func command() *eng.Part {
	return &eng.Part{
		Name: "command",
		Desc: "the bench command: sel (copied, linked, all or matching files), one or two runs (the second of another kind, or started again under the same name), a result or a start of a run that is missing, cmp with every choice of reports, removal of a run; the reports are those of the suite as opened here",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for l := int32(0); l < 2; l++ {
				for p := int32(0); p < 2; p++ {
					for r := int32(0); r < 4; r++ {
						for b := int32(0); b < 4; b++ {
							for o := int32(0); o < 6; o++ {
								if !yield([]int32{l, p, r, b, o}) {
									return
								}
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			leanEnv()
			d := scratch()
			defer clean(d)
			os.Mkdir("in", 0o755)
			want := map[string]bool{}
			for i, f := range []string{"a.cnf", "b.cnf", "c.icnf", "noext"} {
				t := fmt.Sprintf("exit %d\n# %d", []int{10, 20, 0, 10}[i], i)
				os.WriteFile("in/"+f, []byte(t), 0o644)
				if c[1] == 0 || i < 2 {
					want["in/"+f] = true
				}
			}
			os.WriteFile("run.sh", []byte(script), 0o644)
			sel := []string{"sel", "-name", "s"}
			if c[0] == 1 {
				sel = append(sel, "-link")
			}
			if c[1] == 1 {
				sel = append(sel, "-pattern", "*.cnf")
			}
			if _, e := call(d, append(sel, "in")...); e != nil {
				return e
			}
			names := []string{}
			switch c[2] {
			case 1:
				names = []string{"r"}
			case 2:
				names = []string{"r", "other"}
			case 3:
				names = []string{"r", "r"}
			}
			for i, n := range names {
				cmd := "sh " + d + "/run.sh"
				if i == 1 {
					cmd = d + "/nothing"
				}
				if _, e := call(d, "run", "-name", n, "-cmd", cmd, "s"); e != nil {
					return e
				}
			}
			cov.Trans += int64(len(names)) + 2
			switch c[3] {
			case 1:
				os.RemoveAll("s/runs/r/inst-0.run/result")
			case 2:
				os.RemoveAll("s/runs/r/start")
			case 3:
				if _, e := call(d, "run", "-d", "r", "s"); e != nil {
					return e
				}
			}
			s, e := bench.OpenSuite("s")
			if e != nil {
				return e
			}
			if len(s.Insts) != len(want) {
				return fmt.Errorf("%d instances of %d files", len(s.Insts), len(want))
			}
			for i, m := range s.Map {
				if !want[m] {
					return fmt.Errorf("instance %d is %s", i, m)
				}
				delete(want, m)
			}
			has := map[string]bool{}
			for _, r := range s.Runs {
				has[r.Name] = true
				n := len(s.Insts)
				if c[3] == 1 && r.Name == "r" {
					n--
				}
				if len(r.InstRuns) != n {
					return fmt.Errorf("run %q has %d results, should be %d", r.Name, len(r.InstRuns), n)
				}
				for _, ir := range r.InstRuns {
					x := 0
					if r.Name == "r" {
						switch s.Map[ir.Inst] {
						case "in/a.cnf", "in/noext":
							x = 1
						case "in/b.cnf":
							x = -1
						}
					}
					if ir.Result != x {
						return fmt.Errorf("%s gives %d in run %q, should be %d", s.Map[ir.Inst], ir.Result, r.Name, x)
					}
				}
			}
			if has["r"] != (c[2] > 0 && c[3] < 2) || has["other"] != (c[2] == 2) {
				return fmt.Errorf("runs %v", has)
			}
			opts := [][]string{{"-sum"}, {"-sum=false", "-list"}, {"-sum=false", "-list", "-runs", "o*"}, {"-cactus"}, {"-scatter", "-sat"}, {"-scatter", "-cactus", "-list", "-unsat"}}[c[4]]
			out, e := call(d, append(append([]string{"cmp"}, opts...), "s")...)
			if e != nil {
				return e
			}
			if c[4] != 1 && c[4] != 2 && !strings.Contains(out, bench.Summary(s)) {
				return fmt.Errorf("the summary is not\n%s\nin\n%s", bench.Summary(s), out)
			}
			if c[4] == 1 || c[4] == 2 {
				var rs []*bench.Run
				for _, r := range s.Runs {
					if c[4] == 1 || strings.HasPrefix(r.Name, "o") {
						rs = append(rs, r)
					}
				}
				e := listing(out, s, rs, func(r *bench.Run, i int) (string, string) {
					for _, ir := range r.InstRuns {
						if ir.Inst == i {
							return map[int]string{1: "s", -1: "u", 0: "?"}[ir.Result], fmt.Sprintf("%.2f", ir.Dur.Seconds())
						}
					}
					return "", ""
				})
				if e != nil {
					return e
				}
			}
			h := eng.NewH()
			for _, r := range s.Runs {
				h.S(r.Name)
				h.I(len(r.InstRuns))
			}
			h.I(int(c[4]))
			eng.State(uint64(h))
			cov.Traces++
			cov.Nontriv++
			return nil
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("link %d pattern %d runs %d damage %d reports %d", c[0], c[1], c[2], c[3], c[4])
		},
		Hang: 3 * time.Minute,
	}
}
