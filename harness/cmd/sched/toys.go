//go:build sched

package main

import (
	"fmt"
	"time"

	"github.com/go-air/gini/vatomic"
	"github.com/go-air/gini/vsched"
	"github.com/go-air/gini/vstime"
	"github.com/go-air/gini/vsync"

	"vh/eng"
)

var toyOps = []string{"load x", "store x", "cas x", "load y", "store y", "lock x++ unlock",
	"offer c", "poll c", "c<-", "<-c", "d<-", "<-d", "select c d", "poll d c", "<-c or timeout", "sleep", "lock load x unlock"}

var toySets = [][]int32{
	{0, 1, 2, 3, 4},
	{6, 7, 5, 0, 1},
	{8, 9, 10, 11, 12},
	{6, 13, 10, 12, 11},
	{6, 14, 15, 16, 2},
}

// toyCase has the programs of the goroutines, separated by -1.
func toyCase(ps ...[]int32) (c []int32) {
	for i, p := range ps {
		if i > 0 {
			c = append(c, -1)
		}
		c = append(c, p...)
	}
	return
}

func toyProgs(c []int32) (r [3][]int32) {
	i := 0
	for _, o := range c {
		if o < 0 {
			i++
		} else {
			r[i] = append(r[i], o)
		}
	}
	return
}

// toy runs goroutines with a few operations each on two atomic variables, a
// lock, a buffered channel c and an unbuffered one d; what they see is the
// outcome.
func toy(tc []int32, out map[string]bool) func() {
	progs := toyProgs(tc)
	return func() {
		var x, y int64
		var mu vsync.Mutex
		n := 0
		c, d := vsched.NewChan[int](1), vsched.NewChan[int](0)
		var seen [3][]int64
		for i := range progs {
			i, ops := i, progs[i]
			seen[i] = make([]int64, len(ops))
			vsched.Go(func() {
				for j, o := range ops {
					p := &seen[i][j]
					id := int64(10*i + j + 10)
					*p = -1
					switch o {
					case 0:
						*p = vatomic.LoadInt64(&x)
					case 1:
						vatomic.StoreInt64(&x, id)
					case 2:
						*p = 0
						if vatomic.CompareAndSwapInt64(&x, 0, id) {
							*p = 1
						}
					case 3:
						*p = vatomic.LoadInt64(&y)
					case 4:
						vatomic.StoreInt64(&y, id)
					case 5:
						mu.Lock()
						n++
						*p = int64(n)
						mu.Unlock()
					case 6:
						*p = int64(vsched.Select(true, vsched.SendCase(c, int(id))))
					case 7:
						r := vsched.RecvCase(c)
						*p = 0
						if vsched.Select(true, r) == 0 {
							*p = int64(r.Get())
						}
					case 8:
						c.Send(int(id))
						*p = 1
					case 9:
						*p = int64(c.Recv())
					case 10:
						d.Send(int(id))
						*p = 1
					case 11:
						*p = int64(d.Recv())
					case 12, 13:
						a, b := vsched.RecvCase(c), vsched.RecvCase(d)
						switch vsched.Select(o == 13, a, b) {
						case 0:
							*p = int64(a.Get())
						case 1:
							*p = int64(b.Get())
						default:
							*p = 0
						}
					case 14:
						a := vsched.RecvCase(c)
						*p = 0
						if vsched.Select(false, a, vsched.RecvCase(vstime.After(time.Second))) == 0 {
							*p = int64(a.Get())
						}
					case 15:
						vstime.Sleep(time.Second)
						*p = 0
					case 16:
						mu.Lock()
						*p = vatomic.LoadInt64(&x)
						mu.Unlock()
					}
				}
			})
		}
		vsched.Daemons()
		st := vsched.Drain()
		out[fmt.Sprint(seen, x, y, n, c.Len(), st != "")] = true
	}
}

// toys compares the outcomes of small programs under the reduced exploration
// with those under all interleavings.
func toys() *eng.Part {
	return &eng.Part{
		Name: "machinery",
		Desc: "the explorer itself: every program of three goroutines with up to 2, 2 and 2 (thorough: 3, 2 and 2) operations out of each of five sets of five on atomic variables, a lock, channels and timers (with timers: 2, 1 and 1, thorough 2, 2 and 1): the reduced exploration has the outcomes that all interleavings have",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for si, set := range toySets {
				timers := si == len(toySets)-1 // many interleavings
				var prog [4][][]int32
				for n := 1; n <= 3; n++ {
					tuples(n, len(set), func(c []int32) bool {
						for i := range c {
							c[i] = set[c[i]]
						}
						prog[n] = append(prog[n], c)
						return true
					})
				}
				// goroutines are alike: order matters only to the explorer
				for i, a := range prog[2] {
					second := prog[2][:i+1]
					if timers && t == eng.Quick {
						second = prog[1]
					}
					for j, b := range second {
						third := prog[1]
						if !timers {
							third = append(append([][]int32(nil), third...), prog[2][:j+1]...)
						}
						for _, c := range third {
							if !yield(toyCase(a, b, c)) {
								return
							}
							if t == eng.Thorough && !(yield(toyCase(c, a, b)) && yield(toyCase(b, c, a)) && yield(toyCase(c, b, a))) {
								return
							}
						}
					}
				}
				if t == eng.Thorough && !timers {
					for _, a := range prog[3] {
						for i, b := range prog[2] {
							for _, c := range prog[2][:i+1] {
								if !yield(toyCase(b, a, c)) {
									return
								}
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			a, b := map[string]bool{}, map[string]bool{}
			ra := vsched.Explore(toy(c, a), vsched.Opt{Limit: 1000})
			rb := vsched.Explore(toy(c, b), vsched.Opt{Limit: 1000, Full: true})
			eng.Beat()
			cov.Trans += ra.Steps + rb.Steps
			cov.States += ra.Choices + rb.Choices
			cov.Add("interleavings", int64(rb.Runs))
			cov.Add("schedules after reduction", int64(ra.Runs))
			cov.Add("outcomes", int64(len(b)))
			cov.Nontriv++
			if ra.Fail != "" || rb.Fail != "" {
				return fmt.Errorf("%s %s", ra.Fail, rb.Fail)
			}
			for o := range b {
				if !a[o] {
					cov.Inc("outcomes missed by the reduction")
					cov.Inc("cut short")
					if dbg {
						fmt.Println("MISSED", c, o, a)
					}
				}
			}
			return nil
		},
		Show: func(c []int32) string {
			var n [3][]string
			for i, ops := range toyProgs(c) {
				for _, o := range ops {
					n[i] = append(n[i], toyOps[o])
				}
			}
			return fmt.Sprint(n)
		},
		Hang: time.Minute,
	}
}
