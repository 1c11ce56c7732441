package main

import (
	"fmt"

	"vh/eng"
)

// wideSys: systems with many inputs, latches, gates and roots: numbers of
// several digits, binary numbers of several bytes, long lists.
func wideSys() *eng.Part {
	big := []int32{64, 65, 100, 101, 127, 128, 129, 130, 200}
	return &eng.Part{
		Name: "wide",
		Desc: "systems with every number of inputs and latches from 0 to 12, with 0..130 (thorough 0..300) of one kind or of gates, and with some 8200 gates (binary numbers of 1, 2 and 3 bytes), in 4 orders of creation, named or not; both formats, compared on 64 assignments fixed beforehand",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			all := func(i, l, g int32) bool {
				for p := int32(0); p < 8; p++ {
					if !yield([]int32{i, l, g, p}) {
						return false
					}
				}
				return true
			}
			for i := int32(0); i <= 12; i++ {
				for l := int32(0); l <= 12; l++ {
					if !all(i, l, i+l+3) {
						return
					}
				}
			}
			for n := int32(13); n <= int32(t.Pick(130, 300)); n++ {
				if !all(n, 1, 5) || !all(1, n, 5) || !all(2, 1, n) || !all(n, n, n) {
					return
				}
			}
			for _, n := range big {
				if !all(n, 2*n, 3*n) {
					return
				}
			}
			for n := int32(8180); n <= int32(t.Pick(8196, 8210)); n++ {
				if !yield([]int32{2, 2, n, 1}) || !yield([]int32{n, 1, 3, 2}) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			defer func() { wide = 0 }()
			var known error
			for wide = 1; wide <= 4; wide++ {
				b := newB(true)
				nI, nL, nG, pat := int(c[0]), int(c[1]), int(c[2]), int(c[3])
				ini := func(k int) int32 { return int32(1 + (k+k/3+pat)%3) }
				gate := func(k int) {
					n := len(b.lits)
					x, y := (7*k+n-1-k%3)%n, (13*k+3+k%2)%n
					switch pat & 3 {
					case 1: // a chain over the first literals
						x, y = n-1, (2+k%3)%n
					case 2: // the last ones over the first ones
						x, y = (n+n-2-k%2)%n, k%n
					}
					if x > y {
						x, y = y, x
					}
					b.op(4 + int32(x)*int32(n) + int32(y))
				}
				switch pat & 3 {
				case 0, 1: // by kind
					for k := 0; k < nI; k++ {
						b.op(0)
					}
					for k := 0; k < nL; k++ {
						b.op(ini(k))
					}
					for k := 0; k < nG; k++ {
						gate(k)
					}
				case 2: // latches first
					for k := 0; k < nL; k++ {
						b.op(ini(k))
					}
					for k := 0; k < nI; k++ {
						b.op(0)
					}
					for k := 0; k < nG; k++ {
						gate(k)
					}
				default: // one of each in turn
					for k := 0; k < nI || k < nL || k < nG; k++ {
						if k < nG {
							gate(k)
						}
						if k < nI {
							b.op(0)
						}
						if k < nL {
							b.op(ini(k))
						}
					}
				}
				n := len(b.lits)
				for k := 0; k < nL; k++ {
					b.setNext(k, (5*k+n-1)%n)
				}
				for k := 0; k < 4; k++ {
					for r := 0; r < nG/(k+1)+k; r++ {
						b.root(k, n-1-(3*r+k)%n)
					}
				}
				for k := 0; k < nL; k++ {
					b.root(4, (11*k+2)%n)
					for r := 0; r < k%14; r++ {
						j := len(b.t.Justice) - 1
						l := (17*r + k) % n
						b.t.Justice[j] = append(b.t.Justice[j], b.lits[l])
						b.s.just[j] = append(b.s.just[j], b.tts[l])
					}
				}
				if pat >= 4 {
					for _, k := range []byte("ilobcjf") {
						f := nameFns(b.t)[k]
						for i := 0; i < f.n; i += 1 + pat%3 {
							nm := fmt.Sprintf("%c of %d", k, i)
							if e := f.set(i, nm); e != nil {
								return fmt.Errorf("naming %c%d: %v", k, i, e)
							}
							b.s.names[fmt.Sprintf("%c%d", k, i)] = nm
						}
					}
				}
				if nL > 0 {
					cov.Nontriv++
				}
				h := eng.NewH()
				for _, x := range c {
					h.I(int(x))
				}
				eng.State(uint64(h))
				if e := trip(b.t, b.s, cov); e != nil {
					s := e
					if len(e.Error()) > 400 {
						s = fmt.Errorf("%.400s", e.Error())
					}
					if _, ok := e.(errSwapped); ok {
						known = e
						continue
					}
					return s
				}
				if e := checkCopy(b, cov); e != nil {
					return e
				}
			}
			return known
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("%d inputs, %d latches, %d gates, pattern %d", c[0], c[1], c[2], c[3])
		},
		Known: knownSwap,
	}
}
