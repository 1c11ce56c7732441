// Package vtime stands in for package time in instrumented builds: a clock
// that only moves when it is looked at, by a step the harness chooses.
package vtime

import (
	"sync/atomic"
	"time"
)

type (
	Time     = time.Time
	Duration = time.Duration
	Timer    = time.Timer
	Ticker   = time.Ticker
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
)

// Virtual switches the virtual clock on.
var Virtual bool

// Step is how far the clock moves per look.
var Step Duration = time.Millisecond

// Looks counts the looks at the clock.
var Looks int64

var base = time.Unix(1000000000, 0)
var now int64

// Reset sets the clock back to its start.
func Reset() { atomic.StoreInt64(&now, 0); atomic.StoreInt64(&Looks, 0) }

func Now() Time {
	if !Virtual {
		return time.Now()
	}
	atomic.AddInt64(&Looks, 1)
	return base.Add(Duration(atomic.AddInt64(&now, int64(Step))))
}

func Until(t Time) Duration {
	if !Virtual {
		return time.Until(t)
	}
	return t.Sub(Now())
}

func Since(t Time) Duration {
	if !Virtual {
		return time.Since(t)
	}
	return Now().Sub(t)
}

func After(d Duration) <-chan Time             { return time.After(d) }
func NewTimer(d Duration) *Timer               { return time.NewTimer(d) }
func NewTicker(d Duration) *Ticker             { return time.NewTicker(d) }
func Tick(d Duration) <-chan Time              { return time.Tick(d) }
func AfterFunc(d Duration, f func()) *Timer    { return time.AfterFunc(d, f) }
func Sleep(d Duration)                         { time.Sleep(d) }
func Unix(s, n int64) Time                     { return time.Unix(s, n) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
