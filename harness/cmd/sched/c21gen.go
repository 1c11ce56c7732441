//go:build sched

package main

import (
	"fmt"
	"time"

	"github.com/go-air/gini/ax"
	"github.com/go-air/gini/vsched"
	"github.com/go-air/gini/z"

	"vh/eng"
)

// operations of a client of a request generator
const (
	gNew = iota
	gSetFlag
	gLimit
	gFlag
	gOps
)

var gNames = []string{"New", "SetFlag", "Limit", "Flag"}

func gScript(c []int32) string {
	s := ""
	for _, x := range c {
		s += " " + gNames[x]
	}
	return s
}

// what client i sets
func gFlagOf(i int) ax.ReqFlag     { return []ax.ReqFlag{ax.ReqModel, ax.ReqWhy}[i] }
func gLimitOf(i int) time.Duration { return time.Duration(i+1) * time.Second }
func gLit(i, k int) z.Lit          { return z.Var(1 + 10*i + k).Pos() }

// gOut is what one operation gave.
type gOut struct {
	id    int
	flag  ax.ReqFlag
	limit time.Duration
}

// gSeq gives what the operations give when each is one step, in every order.
func gSeq(sc [2][]int32, yield func(out [2][]gOut)) {
	var rec func(p [2]int, st gOut, out [2][]gOut)
	rec = func(p [2]int, st gOut, out [2][]gOut) {
		end := true
		for i := range sc {
			if p[i] == len(sc[i]) {
				continue
			}
			end = false
			q, s, o := p, st, out
			var g gOut
			switch sc[i][p[i]] {
			case gNew:
				g = s
				s.id++
			case gSetFlag:
				s.flag = gFlagOf(i)
			case gLimit:
				s.limit = gLimitOf(i)
			case gFlag:
				g.flag = s.flag
			}
			q[i]++
			o[i] = append(append([]gOut(nil), o[i]...), g)
			rec(q, s, o)
		}
		if end {
			yield(out)
		}
	}
	rec([2]int{}, gOut{flag: ax.ReqModel | ax.ReqWhy}, [2][]gOut{})
}

// runGen has two clients of one request generator (the one of the package if
// global), each in its own goroutine.
func runGen(global bool, sc [2][]int32) func() {
	legal := map[string]bool{}
	gSeq(sc, func(out [2][]gOut) { legal[fmt.Sprint(out)] = true })
	return func() {
		gen := ax.NewRequestGen()
		setFlag, flag, limit, newReq := gen.SetFlag, gen.Flag, gen.Limit, gen.New
		id0 := 0
		if global {
			setFlag, flag, limit, newReq = ax.SetFlag, ax.Flag, ax.Limit, ax.NewRequest
			// as a new one, except for the next number
			setFlag(ax.ReqModel | ax.ReqWhy)
			limit(0)
			id0 = newReq().Id + 1
		}
		done := vsched.NewChan[int](2)
		var out [2][]gOut
		for i := range sc {
			i := i
			vsched.Named("client", func() {
				ms := make([]z.Lit, 1)
				for k, op := range sc[i] {
					var g gOut
					switch op {
					case gNew:
						ms[0] = gLit(i, k)
						r := newReq(ms...)
						ms[0] = 0
						failIf(len(r.Ms) != 1 || r.Ms[0] != gLit(i, k), "request %v does not have the literals %v it was made from", r, gLit(i, k))
						g = gOut{r.Id - id0, r.Flag, r.Limit}
					case gSetFlag:
						setFlag(gFlagOf(i))
					case gLimit:
						limit(gLimitOf(i))
					case gFlag:
						g.flag = flag()
					}
					out[i] = append(out[i], g)
				}
				done.Send(1)
			})
		}
		done.Recv()
		done.Recv()
		failIf(!legal[fmt.Sprint(out)], "requests and flags %v: no order of the operations gives that", out)
	}
}

func genPart() *eng.Part {
	p := &eng.Part{
		Name: "generator",
		Desc: "two clients of one request generator (or of that of the package), each in its own goroutine, with every pair of scripts of up to 2 operations (thorough 3) out of New, SetFlag, Limit, Flag: what they see must be as in some order of the operations; every schedule",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			var all [][]int32
			for n := 1; n <= t.Pick(2, 3); n++ {
				s := make([]int32, n)
				for {
					all = append(all, append([]int32(nil), s...))
					k := 0
					for ; k < n; k++ {
						if s[k]++; s[k] < gOps {
							break
						}
						s[k] = 0
					}
					if k == n {
						break
					}
				}
			}
			for g := int32(0); g < 2; g++ {
				for i, a := range all {
					for _, b := range all[i:] {
						c := append([]int32{g, int32(len(a))}, a...)
						if !yield(append(c, b...)) {
							return
						}
					}
				}
			}
		},
		Hang: time.Minute,
	}
	split := func(c []int32) [2][]int32 { return [2][]int32{c[2 : 2+c[1]], c[2+c[1]:]} }
	p.Show = func(c []int32) string {
		sc := split(c)
		return fmt.Sprintf("own generator %v; client A:%s; client B:%s", c[0] == 0, gScript(sc[0]), gScript(sc[1]))
	}
	p.Run = func(c []int32, cov *eng.Cov) error {
		return exploreCase(p.Show(c), runGen(c[0] == 1, split(c)), 0, 3000, 0, cov)
	}
	return p
}
