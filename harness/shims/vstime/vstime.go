//go:build go1.23

// Package vstime stands in for package time under the controlled scheduler.
package vstime

import (
	"time"

	"github.com/go-air/gini/vsched"
)

type (
	Time     = time.Time
	Duration = time.Duration
	Month    = time.Month
	Location = time.Location
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
)

var base = time.Unix(1000000000, 0)

func Now() Time                                { return base.Add(Duration(vsched.Now())) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func Since(t Time) Duration                    { return Now().Sub(t) }
func Sleep(d Duration)                         { vsched.Sleep(d) }
func Unix(s, n int64) Time                     { return time.Unix(s, n) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }

type Timer struct {
	C    *vsched.Chan[Time]
	stop func() bool
	f    func()
}

func NewTimer(d Duration) *Timer {
	t := &Timer{C: vsched.NewChan[Time](1)}
	t.f = func() { t.C.Fire(Now()) }
	t.stop = vsched.AddTimer(d, 0, t.obj(), t.f, nil)
	return t
}

func (t *Timer) obj() any {
	if t.C == nil {
		return t
	}
	return t.C
}

func (t *Timer) Stop() bool { return t.stop() }
func (t *Timer) Reset(d Duration) bool {
	r := t.stop()
	t.stop = vsched.AddTimer(d, 0, t.obj(), t.f, nil)
	return r
}

func After(d Duration) *vsched.Chan[Time] { return NewTimer(d).C }

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{}
	t.f = func() { vsched.Go(f) }
	t.stop = vsched.AddTimer(d, 0, t.obj(), t.f, nil)
	return t
}

type Ticker struct {
	C    *vsched.Chan[Time]
	stop func() bool
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: vsched.NewChan[Time](1)}
	t.stop = vsched.AddTimer(d, d, t.C, func() { t.C.Fire(Now()) }, t.C.Useful)
	return t
}

func (t *Ticker) Stop() { t.stop() }
func (t *Ticker) Reset(d Duration) {
	t.stop()
	t.stop = vsched.AddTimer(d, d, t.C, func() { t.C.Fire(Now()) }, t.C.Useful)
}

func Tick(d Duration) *vsched.Chan[Time] { return NewTicker(d).C }
