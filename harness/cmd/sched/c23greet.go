//go:build sched

package main

import (
	"fmt"
	"time"

	"github.com/go-air/gini/crisp"

	"github.com/go-air/gini/vnet"
	"github.com/go-air/gini/vsched"
	"vh/eng"
)

// greetWords are put in place of one word of the greeting.
var greetWords = []uint32{0, 1, 'c', 'r', 'i', 's', 'p', 'C', 'R', 'I', 'S', 'P', 127, 128, 255, 1<<14 + 1, 1<<31 + 2, 1<<32 - 1}

func greeting() []uint32 {
	return []uint32{'C', 'R', 'I', 'S', 'P', uint32(crisp.V)}
}

// greetPart has clients connect to peers whose greeting is not that of a
// server, or is not complete, or comes in pieces.
func greetPart() *eng.Part {
	// kinds: 0 word p replaced by word q; 1 words p and q exchanged; 2 the end
	// after p bytes; 3 word p left out; 4 word p twice; 5 complete, then the end
	text := func(c []int32) (b []byte, good bool) {
		ws := greeting()
		p, q := int(c[1]), int(c[2])
		switch c[0] {
		case 0:
			good = ws[p] == greetWords[q]
			ws[p] = greetWords[q]
		case 1:
			good = p == q
			ws[p], ws[q] = ws[q], ws[p]
		case 3:
			ws = append(ws[:p], ws[p+1:]...)
		case 4:
			ws = append(ws[:p+1], ws[p:]...)
			good = p >= 4 // the second one is the version
		case 5:
			good = true
		}
		for _, w := range ws {
			b = append(b, enc(w)...)
		}
		if c[0] == 2 {
			b = b[:p]
		}
		return
	}
	return &eng.Part{
		Name: "greeting",
		Desc: fmt.Sprintf("peers whose greeting has one of its letters replaced by each of %d words, exchanged with another, left out or doubled, or breaks off after every byte; whole and in pieces of 1 to 3 bytes; all schedules: Dial fails, and only then", len(greetWords)),
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for chunk := int32(0); chunk < 4; chunk++ {
				n := 0
				for _, w := range greeting() {
					n += len(enc(w))
				}
				for p := int32(0); p < 5; p++ {
					for q := range greetWords {
						if !yield([]int32{0, p, int32(q), chunk}) {
							return
						}
					}
					for q := int32(0); q < 5; q++ {
						if !yield([]int32{1, p, q, chunk}) {
							return
						}
					}
					if !yield([]int32{3, p, 0, chunk}) || !yield([]int32{4, p, 0, chunk}) {
						return
					}
				}
				for p := int32(0); p < int32(n); p++ {
					if !yield([]int32{2, p, 0, chunk}) {
						return
					}
				}
				if !yield([]int32{4, 5, 0, chunk}) || !yield([]int32{5, 0, 0, chunk}) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			b, good := text(c)
			f := func() {
				vnet.Reset()
				vnet.Chunk = int(c[3])
				l, e := vnet.Listen("tcp", crispAddr)
				failIf(e != nil, "listen: %v", e)
				done := vsched.NewChan[int](1)
				vsched.Named("scripted server", func() {
					s, _ := l.Accept()
					s.Write(b)
					s.Close()
					done.Send(1)
				})
				x, e := crisp.Dial(crispAddr)
				failIf(good && e != nil, "Dial of a peer that greets properly: %v", e)
				failIf(!good && e == nil, "Dial of a peer that greets with %q succeeds", b)
				if x != nil {
					r, e := x.Solve()
					failIf(e == nil, "Solve on a connection that is over gives %d and no error", r)
					x.Close()
				}
				done.Recv()
			}
			return exploreCrisp(fmt.Sprint(c), f, 100000, 200, cov)
		},
		Show: func(c []int32) string {
			b, good := text(c)
			return fmt.Sprintf("greeting %q (good: %v), pieces of %d", b, good, c[3])
		},
		Hang: time.Minute,
	}
}
