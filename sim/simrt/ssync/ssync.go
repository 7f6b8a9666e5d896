//go:build go1.24

// Package sync replaces the standard package in the simulated code.
package sync

import (
	real "sync"
	"unsafe"

	"github.com/couchbaselabs/gojsonsm/simrt"
)

type Locker = real.Locker

type Mutex struct {
	locked bool
	_      uint32
}

//go:norace
func (m *Mutex) free() bool { return !m.locked }

//go:norace
func (m *Mutex) Lock() {
	simrt.Y(0)
	simrt.Block(m.free)
	m.locked = true
	simrt.HBAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Y(0)
	if m.locked {
		return false
	}
	m.locked = true
	simrt.HBAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.HBRelease(unsafe.Pointer(m))
	m.locked = false
	simrt.Y(0)
}

type RWMutex struct {
	w       bool
	readers int
	_       uint32
}

//go:norace
func (m *RWMutex) free() bool { return !m.w && m.readers == 0 }

//go:norace
func (m *RWMutex) rfree() bool { return !m.w }

//go:norace
func (m *RWMutex) Lock() {
	simrt.Y(0)
	simrt.Block(m.free)
	m.w = true
	simrt.HBAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Y(0)
	if !m.free() {
		return false
	}
	m.w = true
	simrt.HBAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.HBRelease(unsafe.Pointer(m))
	m.w = false
	simrt.Y(0)
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.Y(0)
	simrt.Block(m.rfree)
	m.readers++
	simrt.HBAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Y(0)
	if m.w {
		return false
	}
	m.readers++
	simrt.HBAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.HBRelease(unsafe.Pointer(m))
	m.readers--
	simrt.Y(0)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) isDone() bool {
	if o.done {
		simrt.HBAcquire(unsafe.Pointer(o))
	}
	return o.done
}

//go:norace
func (o *Once) set() {
	simrt.HBRelease(unsafe.Pointer(o))
	o.done = true
}

func (o *Once) Do(f func()) {
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.set()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	n int
	_ uint32
}

//go:norace
func (w *WaitGroup) zero() bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		simrt.HBRelease(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	simrt.Y(0)
	simrt.Block(w.zero)
	simrt.HBAcquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L   Locker
	seq uint64
	sig uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	c.seq++
	my := c.seq
	c.L.Unlock()
	simrt.Block(func() bool { return c.sig >= my })
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if c.sig < c.seq {
		c.sig++
	}
}

//go:norace
func (c *Cond) Broadcast() { c.sig = c.seq }

// Pool hands items out in LIFO order; which are dropped (as a garbage collection
// would) is decided by the simulated host.
type Pool struct {
	New   func() any
	items []any
	_     uint32
}

//go:norace
func (p *Pool) pop() (any, bool) {
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		simrt.HBAcquire(unsafe.Pointer(p))
		return v, true
	}
	return nil, false
}

//go:norace
func (p *Pool) push(v any) {
	if v == nil || simrt.PoolDrops() {
		return
	}
	simrt.HBRelease(unsafe.Pointer(p))
	p.items = append(p.items, v)
}

func (p *Pool) Get() any {
	simrt.Y(0)
	if v, ok := p.pop(); ok {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	p.push(v)
	simrt.Y(0)
}

// Map is iterated in the order in which the host iterates maps.
type Map struct {
	m map[any]any
	_ uint32
}

//go:norace
func (m *Map) Load(k any) (any, bool) {
	simrt.Y(0)
	simrt.HBAcquire(unsafe.Pointer(m))
	v, ok := m.m[k]
	return v, ok
}

//go:norace
func (m *Map) Store(k, v any) { m.Swap(k, v) }

//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.Y(0)
	simrt.HBAcquire(unsafe.Pointer(m))
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	m.m[k] = v
	simrt.HBRelease(unsafe.Pointer(m))
	return old, ok
}

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Y(0)
	simrt.HBAcquire(unsafe.Pointer(m))
	if old, ok := m.m[k]; ok {
		return old, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	simrt.HBRelease(unsafe.Pointer(m))
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Y(0)
	simrt.HBAcquire(unsafe.Pointer(m))
	old, ok := m.m[k]
	delete(m.m, k)
	return old, ok
}

//go:norace
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:norace
func (m *Map) Clear() { m.m = nil }

//go:norace
func (m *Map) CompareAndSwap(k, old, v any) bool {
	simrt.Y(0)
	if cur, ok := m.m[k]; ok && cur == old {
		m.m[k] = v
		simrt.HBRelease(unsafe.Pointer(m))
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(k, old any) bool {
	simrt.Y(0)
	if cur, ok := m.m[k]; ok && cur == old {
		delete(m.m, k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	for _, e := range simrt.MapRange(m.m) {
		if v, ok := m.Load(e.Key); ok {
			if !f(e.Key, v) {
				return
			}
		}
	}
}
