// Package vsync stands in for sync in instrumented code.
package vsync

import (
	"sync"
	"unsafe"

	"verif.local/mc/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is sync.Mutex under the controlled scheduler.
type Mutex struct {
	m sync.Mutex
	s vsched.LockState
}

func (m *Mutex) Lock()   { vsched.Lock(&m.s); m.m.Lock() }
func (m *Mutex) Unlock() { vsched.Unlock(&m.s); m.m.Unlock() }
func (m *Mutex) TryLock() bool {
	if !vsched.TryLock(&m.s) {
		return false
	}
	m.m.Lock()
	return true
}

// RWMutex is sync.RWMutex under the controlled scheduler.
type RWMutex struct {
	m sync.RWMutex
	s vsched.LockState
}

func (m *RWMutex) Lock()    { vsched.Lock(&m.s); m.m.Lock() }
func (m *RWMutex) Unlock()  { vsched.Unlock(&m.s); m.m.Unlock() }
func (m *RWMutex) RLock()   { vsched.RLock(&m.s); m.m.RLock() }
func (m *RWMutex) RUnlock() { vsched.RUnlock(&m.s); m.m.RUnlock() }
func (m *RWMutex) TryLock() bool {
	if !vsched.TryLock(&m.s) {
		return false
	}
	m.m.Lock()
	return true
}
func (m *RWMutex) TryRLock() bool {
	if !vsched.TryRLock(&m.s) {
		return false
	}
	m.m.RLock()
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup under the controlled scheduler.
type WaitGroup struct {
	w sync.WaitGroup
	s vsched.WgState
}

func (w *WaitGroup) Add(n int) { vsched.WgAdd(&w.s, n); w.w.Add(n) }
func (w *WaitGroup) Done()     { w.Add(-1) }
func (w *WaitGroup) Wait()     { vsched.WgWait(&w.s); w.w.Wait() }

// Go runs f in a new thread.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Spawn(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once under the controlled scheduler.
type Once struct {
	o sync.Once
	s vsched.OnceState
}

func (o *Once) Do(f func()) {
	if !vsched.OnceBegin(&o.s) {
		o.o.Do(func() {})
		return
	}
	o.o.Do(func() {
		defer vsched.OnceEnd(&o.s)
		f()
	})
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := newOnce()
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o := newOnce()
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := newOnce()
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

func newOnce() *Once {
	o := &Once{}
	vsched.AtReset(func() { *o = Once{} })
	return o
}

// Pool is sync.Pool; it always returns the item put back last.
type Pool struct {
	New func() any
	s   vsched.PoolState
}

func (p *Pool) Put(v any) { vsched.PoolPut(&p.s, v) }
func (p *Pool) Get() any {
	if v := vsched.PoolGet(&p.s); v != nil {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Cond is sync.Cond under the controlled scheduler.
type Cond struct {
	L Locker
	s vsched.CondState
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait()      { vsched.CondWait(&c.s, c.L.Unlock); c.L.Lock() }
func (c *Cond) Signal()    { vsched.CondWake(&c.s, false) }
func (c *Cond) Broadcast() { vsched.CondWake(&c.s, true) }

// Map is sync.Map under the controlled scheduler.
type Map struct {
	m sync.Map
	b byte
}

func (m *Map) p(read bool)            { vsched.Obj(unsafe.Pointer(&m.b), read) }
func (m *Map) Load(k any) (any, bool) { m.p(true); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { m.p(false); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.p(false)
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { m.p(false); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { m.p(false); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { m.p(false); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool { m.p(false); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool  { m.p(false); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)     { m.p(true); m.m.Range(f) }
func (m *Map) Clear()                          { m.p(false); m.m.Clear() }
