// Package vrand stands in for math/rand in instrumented builds: every random
// choice is taken from a script, so that all of them can be enumerated.
package vrand

import "math/rand"

// Script holds the choices; beyond it the choice is 0.  Used and Range record
// what was chosen and among how many.
var (
	On     bool
	Script []int
	Used   []int
	Range  []int
	Limit  = 1 << 20
)

// Over is panicked with when more than Limit choices are made.
type Over struct{}

// Reset starts a run.
func Reset(script []int) { Script, Used, Range = script, Used[:0], Range[:0] }

// Next moves to the next script in order of depth first search, with at most
// max choices changed from the end; false when there is none.
func Next(max int) ([]int, bool) {
	n := len(Used)
	if n > max {
		n = max
	}
	s := append([]int{}, Used[:n]...)
	for i := n - 1; i >= 0; i-- {
		if s[i]+1 < Range[i] {
			s[i]++
			return s[:i+1], true
		}
	}
	return nil, false
}

// The choice made is the scripted offset from a value that rotates, so that
// what is beyond the script does not repeat itself for ever.
func choose(n int) int {
	i := len(Used)
	if i >= Limit {
		panic(Over{})
	}
	off := 0
	if i < len(Script) {
		off = Script[i] % n
	}
	Used = append(Used, off)
	Range = append(Range, n)
	return (off + i) % n
}

type (
	Source   = rand.Source
	Source64 = rand.Source64
	Rand     struct{ r *rand.Rand }
)

func NewSource(s int64) Source { return rand.NewSource(s) }
func New(s Source) *Rand       { return &Rand{rand.New(s)} }

var top = New(NewSource(1))

func (r *Rand) Intn(n int) int {
	if !On {
		return r.r.Intn(n)
	}
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return choose(n)
}
func (r *Rand) Int31n(n int32) int32 { return int32(r.Intn(int(n))) }
func (r *Rand) Int63n(n int64) int64 { return int64(r.Intn(int(n))) }
func (r *Rand) Int() int             { return r.r.Int() }
func (r *Rand) Int31() int32         { return r.r.Int31() }
func (r *Rand) Int63() int64         { return r.r.Int63() }
func (r *Rand) Uint32() uint32       { return r.r.Uint32() }
func (r *Rand) Uint64() uint64       { return r.r.Uint64() }
func (r *Rand) Float64() float64     { return r.r.Float64() }
func (r *Rand) Seed(s int64)         { r.r.Seed(s) }
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

func Intn(n int) int                     { return top.Intn(n) }
func Int31n(n int32) int32               { return top.Int31n(n) }
func Int63n(n int64) int64               { return top.Int63n(n) }
func Int() int                           { return top.Int() }
func Int31() int32                       { return top.Int31() }
func Int63() int64                       { return top.Int63() }
func Uint32() uint32                     { return top.Uint32() }
func Uint64() uint64                     { return top.Uint64() }
func Float64() float64                   { return top.Float64() }
func Seed(s int64)                       { top.Seed(s) }
func Perm(n int) []int                   { return top.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { top.Shuffle(n, swap) }
