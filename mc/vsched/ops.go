package vsched

import (
	"reflect"
	"time"
	"unsafe"
)

// LockState is the virtual state of a mutex.
type LockState struct {
	writer  bool
	readers int
	waiting int
}

// WgState is the virtual state of a WaitGroup.
type WgState struct{ n int }

// OnceState is the virtual state of a Once.
type OnceState struct{ running, done bool }

type condWaiter struct{ woken bool }

// CondState is the virtual state of a Cond.
type CondState struct {
	w []*condWaiter
}

// SelCase is a case of a select statement.
type SelCase struct {
	Send bool
	Ch   any
	Val  any
	st   *chanState
}

//go:noinline
func Spawn(f func()) {
	x := cur
	if x == nil {
		go f()
		return
	}
	t := x.newThread(x.cur.proc, "goroutine started by "+x.cur.name, f)
	raceOff()
	x.strat.Spawned(x, x.cur.proc, t.proc)
	raceOn()
	go t.body(x) // a real happens-before edge; it parks at once
}

//go:noinline
func Yield() {
	if cur != nil {
		announce(&op{kind: KYield})
	}
}

//go:noinline
func Block() {
	if cur != nil {
		announce(&op{kind: KBlock})
	}
	select {}
}

//go:noinline
func Lock(s *LockState) {
	if cur != nil {
		s.waiting++
		announce(&op{kind: KLock, ref: unsafe.Pointer(s)})
		s.waiting--
	}
	s.writer = true
}

//go:noinline
func TryLock(s *LockState) bool {
	if cur != nil {
		announce(&op{kind: KObj, ref: unsafe.Pointer(s)})
	}
	if s.writer || s.readers > 0 {
		return false
	}
	s.writer = true
	return true
}

//go:noinline
func TryRLock(s *LockState) bool {
	if cur != nil {
		announce(&op{kind: KObj, ref: unsafe.Pointer(s)})
	}
	if s.writer || s.waiting > 0 {
		return false
	}
	s.readers++
	return true
}

//go:noinline
func Unlock(s *LockState) {
	if cur != nil {
		announce(&op{kind: KUnlock, ref: unsafe.Pointer(s)})
	}
	s.writer = false
}

//go:noinline
func RLock(s *LockState) {
	if cur != nil {
		announce(&op{kind: KRLock, ref: unsafe.Pointer(s)})
	}
	s.readers++
}

//go:noinline
func RUnlock(s *LockState) {
	if cur != nil {
		announce(&op{kind: KRUnlock, ref: unsafe.Pointer(s)})
	}
	s.readers--
}

//go:noinline
func WgAdd(s *WgState, n int) {
	if cur != nil {
		k := KAdd
		if n < 0 {
			k = KDone
		}
		announce(&op{kind: k, ref: unsafe.Pointer(s)})
	}
	s.n += n
}

//go:noinline
func WgWait(s *WgState) {
	if cur != nil {
		announce(&op{kind: KWait, ref: unsafe.Pointer(s)})
	}
}

// OnceBegin returns true if the caller must run the function. A Once that is done is stable: further
// calls commute with everything and are not scheduling points.
//
//go:noinline
func OnceBegin(s *OnceState) bool {
	if s.done {
		return false
	}
	if cur != nil {
		announce(&op{kind: KOnce, ref: unsafe.Pointer(s)})
	}
	if s.done {
		return false
	}
	s.running = true
	return true
}

//go:noinline
func OnceEnd(s *OnceState) {
	if cur != nil {
		announce(&op{kind: KOnceEnd, ref: unsafe.Pointer(s)})
	}
	s.running, s.done = false, true
}

// Obj is a point before an operation on an object.
//
//go:noinline
func Obj(p unsafe.Pointer, read bool) {
	if cur != nil {
		k := KObj
		if read {
			k = KObjR
		}
		announce(&op{kind: k, ref: p})
	}
}

// Atomic is a point before an atomic operation.
//
//go:noinline
func Atomic(p unsafe.Pointer, read bool) {
	if cur != nil {
		k := KAtomicW
		if read {
			k = KAtomicR
		}
		announce(&op{kind: k, ref: p})
	}
}

// CondWait parks until woken; the caller has released and will take the lock around it.
//
//go:noinline
func CondWait(s *CondState, unlock func()) {
	w := &condWaiter{}
	s.w = append(s.w, w)
	unlock()
	if cur != nil {
		announce(&op{kind: KCond, ref: unsafe.Pointer(w)})
	}
	raceAcquire(unsafe.Pointer(s))
}

//go:noinline
func CondWake(s *CondState, all bool) {
	Obj(unsafe.Pointer(s), false)
	raceRelease(unsafe.Pointer(s))
	for len(s.w) > 0 {
		s.w[0].woken = true
		s.w = s.w[1:]
		if !all {
			break
		}
	}
}

// PoolState is the virtual state of a Pool: the items put back, last first out.
type PoolState struct{ items []any }

//go:noinline
func PoolPut(s *PoolState, v any) {
	if v == nil {
		return
	}
	Obj(unsafe.Pointer(s), false)
	raceRelease(unsafe.Pointer(s))
	s.items = append(s.items, v)
}

//go:noinline
func PoolGet(s *PoolState) any {
	Obj(unsafe.Pointer(s), false)
	n := len(s.items)
	if n == 0 {
		return nil
	}
	raceAcquire(unsafe.Pointer(s))
	v := s.items[n-1]
	s.items = s.items[:n-1]
	return v
}

// send announces a send; handled means the value has already been passed on.
//
//go:noinline
func send(ch, v any) (handled bool) {
	if cur == nil {
		return false
	}
	o := &op{kind: KSend, ch: ch, val: v}
	raceRelease(unsafe.Pointer(&o.post))
	announce(o)
	if o.peer == nil {
		return false
	}
	raceAcquire(unsafe.Pointer(o.peer))
	return true
}

//go:noinline
func recv(ch any) (v any, ok, handled bool) {
	if cur == nil {
		return nil, false, false
	}
	o := &op{kind: KRecv, ch: ch}
	raceRelease(unsafe.Pointer(&o.post))
	announce(o)
	if o.peer == nil {
		return nil, false, false
	}
	raceAcquire(unsafe.Pointer(o.peer))
	return o.got, o.ok, true
}

// Sel is the outcome of a select statement.
type Sel struct {
	I   int
	val any
	ok  bool
}

// Select performs a select statement.
//
//go:noinline
func Select(hasDef bool, cases ...SelCase) Sel {
	if cur == nil {
		var rc []reflect.SelectCase
		for _, c := range cases {
			if c.Send {
				rc = append(rc, reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.Ch), Send: reflect.ValueOf(c.Val)})
			} else {
				rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.Ch)})
			}
		}
		if hasDef {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if hasDef && i == len(cases) {
			return Sel{I: -1}
		}
		if cases[i].Send {
			return Sel{I: i}
		}
		return Sel{i, v.Interface(), ok}
	}
	o := &op{kind: KSelect, cases: cases, hasDef: hasDef}
	raceRelease(unsafe.Pointer(&o.post))
	announce(o)
	if o.peer != nil {
		raceAcquire(unsafe.Pointer(o.peer))
		return Sel{o.sel, o.got, o.ok}
	}
	if o.sel < 0 {
		return Sel{I: -1}
	}
	c := cases[o.sel]
	if c.Send {
		sv := reflect.ValueOf(c.Val)
		ct := reflect.ValueOf(c.Ch)
		if c.Val == nil {
			sv = reflect.Zero(ct.Type().Elem())
		}
		ct.Send(sv)
		return Sel{I: o.sel}
	}
	v, ok := reflect.ValueOf(c.Ch).Recv()
	return Sel{o.sel, v.Interface(), ok}
}

//go:noinline
func closing(ch any) {
	if cur != nil {
		announce(&op{kind: KClose, ch: ch})
	}
}

//go:noinline
func length(ch any) {
	if cur != nil {
		announce(&op{kind: KLen, ch: ch})
	}
}

// Sleep is a point at which any other thread may run; time does not pass.
//
//go:noinline
func Sleep(time.Duration) { Yield() }
