package main

import (
	"fmt"
	"strings"
	"time"

	"vh/eng"
	"vh/sat"
)

var theoremWays = []string{"-model", "-satcomp -model", "under one assumption, -failed", "from standard input", "icnf", "over crispd"}

// theorems gives the command formulas of known answer and some size.
func theorems() *eng.Part {
	all := sat.KnownFormulas(true)
	return &eng.Part{
		Name: "theorems",
		Desc: fmt.Sprintf("the easy formulas of known answer (4 to 3000 variables: pigeons, chains, parities, colourings, van der Waerden, Schur and Ramsey numbers, queens, dominoes), 3 (thorough 9) presentations each: %s", strings.Join(theoremWays, "; ")),
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for i := range all {
				if all[i].Hard > 0 {
					continue
				}
				for how := int32(0); how < 27; how += int32(t.Pick(13, 3)) {
					for w := range theoremWays {
						if !yield([]int32{int32(i), how, int32(w)}) {
							return
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			f := &all[c[0]]
			cs, _ := sat.PresentKnown(f, int(c[1]))
			mv := 0
			for _, x := range cs {
				for _, l := range x {
					if abs(l) > mv {
						mv = abs(l)
					}
				}
			}
			want := -1
			if f.Sat {
				want = 1
			}
			gd := mv + 1
			if c[1]%2 == 1 {
				gd = -gd
			}
			var gcs [][]int
			for _, x := range cs {
				gcs = append(gcs, append(append([]int{}, x...), -gd))
			}
			d := eng.Scratch()
			cov.Nontriv++
			cov.Traces++
			cov.Trans++
			var args []string
			stdin := ""
			ps := []*problem{{cs: cs, fixed: want}}
			withV, withF := true, false
			switch c[2] {
			case 0:
				put(d, "t.cnf", dimacs(mv, cs))
				args = []string{"-model", "t.cnf"}
			case 1:
				put(d, "t.cnf", dimacs(mv, cs))
				args = []string{"-satcomp", "-model", "t.cnf"}
			case 2:
				put(d, "t.cnf", dimacs(mv+1, gcs))
				args = append([]string{"-model", "-failed"}, append(assumeArgs([]int{gd}), "t.cnf")...)
				ps[0].as = []int{gd}
				withF = true
			case 3:
				stdin = dimacs(mv, cs)
				args = []string{"-model"}
			case 4:
				t := "p inccnf\n" + strings.SplitN(dimacs(mv+1, gcs), "\n", 2)[1]
				for _, l := range []int{gd, -gd, gd} {
					t += fmt.Sprintf("a %d 0\n", l)
				}
				put(d, "t.icnf", t)
				args = []string{"t.icnf"}
				withV = false
				ps[0].as = []int{gd}
				ps = []*problem{ps[0], {as: []int{-gd}, fixed: 1}, ps[0]}
			case 5:
				a, e := server()
				if e != nil {
					return e
				}
				put(d, "t.cnf", dimacs(mv, cs))
				args = []string{"-crisp", a, "-model", "t.cnf"}
			}
			r, e := gini(d, stdin, args...)
			if e != nil {
				return e
			}
			if want == 1 {
				cov.Inc("sat")
			} else {
				cov.Inc("unsat")
			}
			if c[2] == 1 && r.code != exitCode(want) {
				return fmt.Errorf("exit code %d, should be %d", r.code, exitCode(want))
			}
			as, e := parse(r.out)
			if e != nil {
				return fmt.Errorf("%v\noutput: %s", e, tail(r.out))
			}
			if len(as) != len(ps) {
				return fmt.Errorf("%d answers for %d problems\noutput: %s\nstderr: %s", len(as), len(ps), tail(r.out), tail(r.err))
			}
			for i := range ps {
				if e := ps[i].check(&as[i], withV, withF, false); e != nil {
					return fmt.Errorf("problem %d: %v", i+1, e)
				}
				if withF && want == -1 && len(as[i].f) != 1 {
					return fmt.Errorf("failed assumptions %v of the only one %d", as[i].f, gd)
				}
			}
			return nil
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("%s, presentation %d, %s", all[c[0]].Name, c[1], theoremWays[c[2]])
		},
		Hang: 3 * time.Minute,
	}
}
