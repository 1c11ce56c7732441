//go:build go1.23 && !race

package vsched

import "unsafe"

// Race tells whether the race detector is on.
const Race = false

func hide()                    {}
func unhide()                  {}
func raceErrors() int          { return 0 }
func launch(f func())          { go f() }
func Acquire(p unsafe.Pointer) {}
func Release(p unsafe.Pointer) {}

func Atomically(p unsafe.Pointer, size uintptr, write bool) {}
