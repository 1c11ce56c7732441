//go:build go1.23 && race

package vsched

import (
	"runtime"
	"sync/atomic"
	"unsafe"
)

// In builds with the race detector, what this package does to hand over the
// turn is hidden from it, and it is told which events the operations of the
// program synchronise with which.  So a race is two accesses which the
// program's own operations do not order, in the schedule at hand.  This
// package, and those built on it, must be compiled without instrumentation
// (and without inlining them elsewhere), and not use maps or copy values with
// pointers while goroutines take turns: the runtime reports those itself.

// Race tells whether the race detector is on.
const Race = true

func hide()   { runtime.RaceDisable() }
func unhide() { runtime.RaceEnable() }

func raceErrors() int { return runtime.RaceErrors() }

// Acquire orders what the current goroutine does from here on after what was
// released at p.
func Acquire(p unsafe.Pointer) {
	if s == nil || !s.firing {
		runtime.RaceAcquire(p)
	}
}

// Release makes what the current goroutine did so far known to those who
// acquire p.
func Release(p unsafe.Pointer) {
	if s == nil || !s.firing {
		runtime.RaceReleaseMerge(p)
	}
}

// launcher starts goroutines, so that they only know what their parents
// release to them.
var launcher chan func()

func init() {
	launcher = make(chan func())
	go func() {
		hide()
		for f := range launcher {
			go f()
		}
	}()
}

func launch(f func()) {
	hide()
	launcher <- f
	unhide()
}

// Atomically tells the race detector of an atomic access.
func Atomically(p unsafe.Pointer, size uintptr, write bool) {
	switch {
	case s != nil && s.kill:
	case size == 4 && write:
		atomic.AddInt32((*int32)(p), 0)
	case size == 4:
		atomic.LoadInt32((*int32)(p))
	case size == 8 && write:
		atomic.AddInt64((*int64)(p), 0)
	case size == 8:
		atomic.LoadInt64((*int64)(p))
	default:
		Acquire(p)
		Release(p)
	}
}
