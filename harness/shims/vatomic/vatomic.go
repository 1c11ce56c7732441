//go:build go1.23

// Package vatomic stands in for package sync/atomic under the controlled
// scheduler: every access is a scheduling point.
package vatomic

import (
	"unsafe"

	"github.com/go-air/gini/vsched"
)

//go:norace
func at[T any](p *T, write bool) {
	if write {
		vsched.Point(p)
	} else {
		vsched.PointRead(p)
	}
	vsched.Atomically(unsafe.Pointer(p), unsafe.Sizeof(*p), write)
}

//go:norace
func ld[T any](p *T) T { at(p, false); return *p }

//go:norace
func st[T any](p *T, v T) { at(p, true); *p = v }

//go:norace
func sw[T any](p *T, v T) T { at(p, true); o := *p; *p = v; return o }

//go:norace
func cas[T comparable](p *T, o, n T) bool {
	at(p, true)
	if *p == o {
		*p = n
		return true
	}
	return false
}

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

//go:norace
func add[T num](p *T, d T) T { at(p, true); *p += d; return *p }

//go:norace
func LoadInt32(p *int32) int32 { return ld(p) }

//go:norace
func LoadInt64(p *int64) int64 { return ld(p) }

//go:norace
func LoadUint32(p *uint32) uint32 { return ld(p) }

//go:norace
func LoadUint64(p *uint64) uint64 { return ld(p) }

//go:norace
func StoreInt32(p *int32, v int32) { st(p, v) }

//go:norace
func StoreInt64(p *int64, v int64) { st(p, v) }

//go:norace
func StoreUint32(p *uint32, v uint32) { st(p, v) }

//go:norace
func StoreUint64(p *uint64, v uint64) { st(p, v) }

//go:norace
func SwapInt32(p *int32, v int32) int32 { return sw(p, v) }

//go:norace
func SwapInt64(p *int64, v int64) int64 { return sw(p, v) }

//go:norace
func SwapUint32(p *uint32, v uint32) uint32 { return sw(p, v) }

//go:norace
func SwapUint64(p *uint64, v uint64) uint64 { return sw(p, v) }

//go:norace
func AddInt32(p *int32, d int32) int32 { return add(p, d) }

//go:norace
func AddInt64(p *int64, d int64) int64 { return add(p, d) }

//go:norace
func AddUint32(p *uint32, d uint32) uint32 { return add(p, d) }

//go:norace
func AddUint64(p *uint64, d uint64) uint64 { return add(p, d) }

//go:norace
func CompareAndSwapInt32(p *int32, o, n int32) bool { return cas(p, o, n) }

//go:norace
func CompareAndSwapInt64(p *int64, o, n int64) bool { return cas(p, o, n) }

//go:norace
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return cas(p, o, n) }

//go:norace
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return cas(p, o, n) }

type cell[T comparable] struct{ v T }

//go:norace
func (c *cell[T]) Load() T { return ld(&c.v) }

//go:norace
func (c *cell[T]) Store(v T) { st(&c.v, v) }

//go:norace
func (c *cell[T]) Swap(v T) T { return sw(&c.v, v) }

//go:norace
func (c *cell[T]) CompareAndSwap(o, n T) bool { return cas(&c.v, o, n) }

type ncell[T num] struct{ cell[T] }

//go:norace
func (c *ncell[T]) Add(d T) T { return add(&c.v, d) }

type (
	Bool   = cell[bool]
	Int32  = ncell[int32]
	Int64  = ncell[int64]
	Uint32 = ncell[uint32]
	Uint64 = ncell[uint64]
)

type Pointer[T any] struct{ cell[*T] }

type Value struct{ v interface{} }

//go:norace
func (c *Value) Load() interface{} { return ld(&c.v) }

//go:norace
func (c *Value) Store(v interface{}) { st(&c.v, v) }
