//go:build go1.23

// Package vsync stands in for package sync under the controlled scheduler.
package vsync

import (
	"sync"
	"unsafe"

	"github.com/go-air/gini/vsched"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Map    = sync.Map
)

// Mutex waits its turn like sync.Mutex; whoever gets it is up to the schedule.
type Mutex struct {
	held bool
	q    vsched.WaitList
}

func (m *Mutex) Lock() {
	if vsched.Killed() {
		return
	}
	for vsched.Point(m); m.held; vsched.Point(m) {
		if vsched.Killed() {
			return
		}
		m.q.Wait("Lock")
	}
	m.held = true
	vsched.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	vsched.Point(m)
	if m.held {
		return false
	}
	m.held = true
	vsched.Acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if vsched.Killed() {
		return
	}
	vsched.Point(m)
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	vsched.Release(unsafe.Pointer(m))
	m.q.WakeAll()
}

type RWMutex struct {
	w bool
	r int
	q vsched.WaitList
}

func (m *RWMutex) Lock() {
	for vsched.Point(m); (m.w || m.r > 0) && !vsched.Killed(); vsched.Point(m) {
		m.q.Wait("Lock")
	}
	m.w = true
	vsched.Acquire(unsafe.Pointer(&m.w))
	vsched.Acquire(unsafe.Pointer(&m.r))
}
func (m *RWMutex) Unlock() {
	if vsched.Killed() {
		return
	}
	vsched.Point(m)
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	vsched.Release(unsafe.Pointer(&m.w))
	m.q.WakeAll()
}
func (m *RWMutex) RLock() {
	for vsched.Point(m); m.w && !vsched.Killed(); vsched.Point(m) {
		m.q.Wait("RLock")
	}
	m.r++
	vsched.Acquire(unsafe.Pointer(&m.w))
}
func (m *RWMutex) RUnlock() {
	if vsched.Killed() {
		return
	}
	vsched.Point(m)
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	vsched.Release(unsafe.Pointer(&m.r))
	m.q.WakeAll()
}
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type WaitGroup struct {
	n int
	q vsched.WaitList
}

func (w *WaitGroup) Add(d int) {
	vsched.Point(w)
	w.n += d
	if d < 0 {
		vsched.Release(unsafe.Pointer(w))
	}
	if w.n < 0 && !vsched.Killed() {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for vsched.Point(w); w.n > 0 && !vsched.Killed(); vsched.Point(w) {
		w.q.Wait("WaitGroup.Wait")
	}
	vsched.Acquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L Locker
	q vsched.WaitList
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	vsched.Point(c)
	k := c.q.Enlist()
	c.L.Unlock()
	k.Await("Cond.Wait")
	vsched.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsched.Point(c)
	vsched.Release(unsafe.Pointer(c))
	c.q.Wake1()
}
func (c *Cond) Broadcast() {
	vsched.Point(c)
	vsched.Release(unsafe.Pointer(c))
	c.q.WakeAll()
}
