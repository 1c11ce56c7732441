//go:build go1.23

// Package vruntime stands in for package runtime: the number of processors is
// up to the explorer.
package vruntime

import "runtime"

const (
	GOOS   = runtime.GOOS
	GOARCH = runtime.GOARCH
)

type (
	MemStats = runtime.MemStats
	Error    = runtime.Error
)

// CPUs is what NumCPU returns.
var CPUs = 1

func NumCPU() int                                  { return CPUs }
func GOMAXPROCS(n int) int                         { return CPUs }
func Gosched()                                     {}
func GC()                                          {}
func Goexit()                                      { runtime.Goexit() }
func NumGoroutine() int                            { return runtime.NumGoroutine() }
func ReadMemStats(m *MemStats)                     { runtime.ReadMemStats(m) }
func KeepAlive(x any)                              { runtime.KeepAlive(x) }
func Stack(b []byte, all bool) int                 { return runtime.Stack(b, all) }
func Caller(skip int) (uintptr, string, int, bool) { return runtime.Caller(skip + 1) }
func Version() string                              { return runtime.Version() }
