// Package vsched runs instrumented code under a controlled scheduler: exactly one thread runs at a
// time, and at every synchronisation operation the controller decides which thread goes on.
//
// Instrumented code performs its synchronisation through packages vsync and vatomic and through the
// functions of ops.go. They announce an operation here before it happens; the controller only lets it
// happen when it cannot block; the real primitive is then used, so that values, panics and the
// happens-before edges seen by the race detector are the real ones. The hand-over between threads itself
// is hidden from the race detector, and this package must be built without race instrumentation
// (-gcflags=verif.local/mc/vsched=-race=false) and touch maps and slices on the controller only.
package vsched

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"
	"unsafe"
)

// Kind of a visible operation.
type Kind uint8

const (
	KStart Kind = iota
	KYield
	KLock
	KUnlock
	KRLock
	KRUnlock
	KWait    // WaitGroup.Wait
	KAdd     // WaitGroup.Add, positive
	KDone    // WaitGroup.Add, negative
	KOnce    // Once.Do before it is done
	KOnceEnd // Once.Do's function returned
	KAtomicR
	KAtomicW
	KSend
	KRecv
	KClose
	KLen
	KSelect
	KCont // continuation of a completed rendezvous
	KObj  // any other operation on an object
	KObjR // any other reading operation on an object
	KCond
	KBlock
)

var kindName = []string{"start", "yield", "lock", "unlock", "rlock", "runlock", "wg.wait", "wg.add", "wg.done", "once", "once-end",
	"atomic-read", "atomic-write", "send", "recv", "close", "len", "select", "cont", "op", "read", "cond", "block"}

// Acc is an access of an operation to an object.
type Acc struct {
	Obj  uintptr
	Mode uint8 // 0 read, 1 write, 2 commuting update
}

// op is an announced operation.
type op struct {
	kind    Kind
	ref     unsafe.Pointer // state it works on; kept alive by the thread
	ch      any
	val     any
	n       int
	cases   []SelCase
	hasDef  bool
	acc     []Acc // filled by the controller
	done    bool  // completed by the partner of a rendezvous
	got     any
	ok      bool
	sel     int
	st      *chanState
	post    int64  // address released when the operation is announced
	peer    *int64 // the partner's post, once a rendezvous has happened
	enabled bool
}

type thread struct {
	id, proc int
	wake     chan struct{}
	op       *op
	fin      bool
	fn       func()
	name     string
	clock    []int // set by the explorer
}

type chanState struct {
	ref    any
	ptr    uintptr
	cap    int
	closed bool
}

// Exec is one execution.
type Exec struct {
	threads  []*thread
	cur      *thread
	ctl      chan *thread
	chans    map[uintptr]*chanState
	byGroup  bool
	nproc    int
	Steps    int
	Viol     string // deadlock, panic, leak
	aborted  bool
	Endless  bool
	MainDone []bool
	roots    int
	strat    Strategy
	log      []stepLog
	keepLog  bool
	end      int64
}

type stepLog struct {
	tid  int
	kind Kind
	obj  uintptr
}

// Strategy decides.
type Strategy interface {
	// Pick returns the process to run; enabled lists the processes that can go on (not empty).
	Pick(x *Exec, enabled []int) int
	// Data returns a choice out of n.
	Data(x *Exec, n int) int
	// Spawned reports a new thread.
	Spawned(x *Exec, parent, child int)
	// Did reports the executed operation.
	Did(x *Exec, proc int, acc []Acc, kind Kind)
}

var cur *Exec

// Active reports whether a controlled execution is going on.
func Active() bool { return cur != nil }

// MaxSteps bounds an execution.
const MaxSteps = 200000

// Run executes the root functions as threads under the strategy. With byGroup a thread and all its
// descendants form one process with a fixed internal order; otherwise every thread is a process.
func Run(st Strategy, byGroup, keepLog bool, roots ...func()) *Exec {
	x := &Exec{ctl: make(chan *thread), chans: map[uintptr]*chanState{}, byGroup: byGroup, strat: st, keepLog: keepLog}
	x.roots = len(roots)
	x.MainDone = make([]bool, len(roots))
	for i, f := range roots {
		x.newThread(i, fmt.Sprintf("call %d", i), f)
	}
	cur = x
	for _, t := range x.threads {
		go t.body(x) // a real happens-before edge from the caller; it parks at once
	}
	raceOff()
	x.loop()
	raceOn()
	raceAcquire(unsafe.Pointer(&x.end))
	cur = nil
	return x
}

func (x *Exec) newThread(group int, name string, f func()) *thread {
	t := &thread{id: len(x.threads), wake: make(chan struct{}), fn: f, name: name}
	if x.byGroup {
		t.proc = group
	} else {
		t.proc = t.id
	}
	if t.proc >= x.nproc {
		x.nproc = t.proc + 1
	}
	t.op = &op{kind: KStart}
	x.threads = append(x.threads, t)
	return t
}

func (t *thread) body(x *Exec) {
	raceOff()
	<-t.wake
	raceOn()
	defer func() {
		if r := recover(); r != nil {
			if x.Viol == "" {
				x.Viol = fmt.Sprintf("panic in %s: %v\n%s", t.name, r, trim(string(debug.Stack())))
			}
		}
		t.fin = true
		if t.id < x.roots {
			x.MainDone[t.id] = true
		}
		raceRelease(unsafe.Pointer(&x.end))
		raceOff()
		x.ctl <- t
		raceOn()
	}()
	t.fn()
}

func trim(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// loop is the controller.
func (x *Exec) loop() {
	var en []int
	for {
		en = en[:0]
		live := false
		for _, t := range x.threads {
			if t.fin {
				t.op = nil
				continue
			}
			live = true
			x.resolve(t)
			t.op.enabled = x.enabled(t)
		}
		if !live {
			return
		}
		if x.Viol != "" {
			return
		}
		for p := 0; p < x.nproc; p++ {
			if x.next(p) != nil {
				en = append(en, p)
			}
		}
		if len(en) == 0 {
			x.Viol = x.blockedReport()
			return
		}
		if x.Steps++; x.Steps > MaxSteps {
			x.Endless = true // threads that spin while others do not get their turn; not explored further
			return
		}
		p := en[0]
		if len(en) > 1 || true {
			p = x.strat.Pick(x, en)
			if p < 0 { // execution not wanted any more
				x.aborted = true
				p = en[0]
			}
		}
		t := x.next(p)
		if t == nil {
			panic(fmt.Sprintf("vsched: strategy picked process %d, which is not enabled", p))
		}
		x.commit(t)
		o := t.op
		if x.keepLog {
			var ob uintptr
			if len(o.acc) > 0 {
				ob = o.acc[0].Obj
			}
			x.log = append(x.log, stepLog{t.id, o.kind, ob})
		}
		x.strat.Did(x, p, o.acc, o.kind)
		x.cur = t
		t.wake <- struct{}{}
		got := <-x.ctl
		if got != t {
			panic("vsched: two threads ran at once")
		}
	}
}

// next is the thread of a process that would run next, nil if none is enabled.
func (x *Exec) next(p int) *thread {
	if !x.byGroup {
		t := x.threads[p]
		if !t.fin && t.op.enabled {
			return t
		}
		return nil
	}
	var first *thread
	for _, t := range x.threads {
		if t.proc == p && !t.fin && t.op.enabled {
			if t == x.lastOf(p) {
				return t
			}
			if first == nil {
				first = t
			}
		}
	}
	return first
}

func (x *Exec) lastOf(p int) *thread {
	if x.cur != nil && x.cur.proc == p {
		return x.cur
	}
	return nil
}

func (x *Exec) blockedReport() string {
	main := true
	for i := 0; i < x.roots; i++ {
		main = main && x.MainDone[i]
	}
	var sb strings.Builder
	if main {
		sb.WriteString("goroutine leak: the calls returned but goroutines stay blocked:")
	} else {
		sb.WriteString("deadlock:")
	}
	for _, t := range x.threads {
		if !t.fin {
			fmt.Fprintf(&sb, " [%s (thread %d) blocked in %s]", t.name, t.id, kindName[t.op.kind])
		}
	}
	return sb.String()
}

// Schedule describes the executed schedule.
func (x *Exec) Schedule() string {
	var sb strings.Builder
	for _, s := range x.log {
		fmt.Fprintf(&sb, "%d:%s ", s.tid, kindName[s.kind])
	}
	return sb.String()
}

func (x *Exec) chanOf(c any) *chanState {
	v := reflect.ValueOf(c)
	p := v.Pointer()
	if p == 0 {
		return nil
	}
	s := x.chans[p]
	if s == nil {
		s = &chanState{ref: c, ptr: p, cap: v.Cap()}
		x.chans[p] = s
	}
	return s
}

// resolve fills in what the controller needs to know about an announced operation.
func (x *Exec) resolve(t *thread) {
	o := t.op
	if o.acc != nil {
		return
	}
	o.acc = []Acc{}
	switch o.kind {
	case KStart, KYield, KCont, KBlock:
		return
	case KSend, KRecv, KClose, KLen:
		o.st = x.chanOf(o.ch)
		if o.st == nil {
			return
		}
		m := uint8(1)
		if o.kind == KLen {
			m = 0
		}
		o.acc = append(o.acc, Acc{o.st.ptr, m})
	case KSelect:
		for i := range o.cases {
			c := &o.cases[i]
			c.st = x.chanOf(c.Ch)
			if c.st != nil {
				o.acc = append(o.acc, Acc{c.st.ptr, 1})
			}
		}
	case KAdd, KDone:
		o.acc = append(o.acc, Acc{uintptr(o.ref), 2})
	case KAtomicR, KObjR:
		o.acc = append(o.acc, Acc{uintptr(o.ref), 0})
	default:
		o.acc = append(o.acc, Acc{uintptr(o.ref), 1})
	}
}

func (x *Exec) chLen(s *chanState) int { return reflect.ValueOf(s.ref).Len() }

// partner finds a thread waiting to receive from (or send to) an unbuffered channel.
func (x *Exec) partner(t *thread, s *chanState, send bool) (*thread, int) {
	for _, u := range x.threads {
		if u == t || u.fin || u.op == nil || u.op.done {
			continue
		}
		switch u.op.kind {
		case KSend:
			if send && u.op.st == s {
				return u, -1
			}
		case KRecv:
			if !send && u.op.st == s {
				return u, -1
			}
		case KSelect:
			for i := range u.op.cases {
				if c := &u.op.cases[i]; c.st == s && c.Send == send {
					return u, i
				}
			}
		}
	}
	return nil, 0
}

func (x *Exec) canChan(t *thread, s *chanState, send bool) bool {
	if s == nil {
		return false
	}
	if s.closed {
		return true
	}
	if s.cap > 0 {
		if send {
			return x.chLen(s) < s.cap
		}
		return x.chLen(s) > 0
	}
	u, _ := x.partner(t, s, !send)
	return u != nil
}

func (x *Exec) enabled(t *thread) bool {
	o := t.op
	if o.done {
		return true
	}
	switch o.kind {
	case KLock:
		l := (*LockState)(o.ref)
		return !l.writer && l.readers == 0
	case KRLock:
		l := (*LockState)(o.ref)
		return !l.writer && l.waiting == 0
	case KWait:
		return (*WgState)(o.ref).n <= 0
	case KOnce:
		return !(*OnceState)(o.ref).running
	case KSend:
		return x.canChan(t, o.st, true)
	case KRecv:
		return x.canChan(t, o.st, false)
	case KSelect:
		if o.hasDef {
			return true
		}
		for i := range o.cases {
			if x.canChan(t, o.cases[i].st, o.cases[i].Send) {
				return true
			}
		}
		return false
	case KCond:
		return (*condWaiter)(o.ref).woken
	case KBlock:
		return false
	}
	return true
}

// commit carries out the controller's part of an operation just before its thread goes on.
func (x *Exec) commit(t *thread) {
	o := t.op
	if o.done {
		return
	}
	switch o.kind {
	case KSend, KRecv:
		x.meet(t, o.st, o.kind == KSend, o.val, -1)
	case KClose:
		if o.st != nil {
			o.st.closed = true
		}
	case KSelect:
		var ready []int
		for i := range o.cases {
			if x.canChan(t, o.cases[i].st, o.cases[i].Send) {
				ready = append(ready, i)
			}
		}
		if len(ready) == 0 {
			o.sel = -1
			return
		}
		k := 0
		if len(ready) > 1 {
			k = x.strat.Data(x, len(ready))
		}
		o.sel = ready[k]
		c := &o.cases[o.sel]
		x.meet(t, c.st, c.Send, c.Val, o.sel)
	}
}

// meet completes a rendezvous on an unbuffered channel with a waiting partner.
func (x *Exec) meet(t *thread, s *chanState, send bool, val any, sel int) {
	if s.cap > 0 || s.closed {
		return
	}
	u, i := x.partner(t, s, !send)
	o, p := t.op, u.op
	o.done, p.done = true, true
	o.sel, p.sel = sel, i
	if send {
		p.got, p.ok = val, true
	} else {
		v := p.val
		if i >= 0 {
			v = p.cases[i].Val
		}
		o.got, o.ok = v, true
	}
	o.peer, p.peer = &p.post, &o.post
}

// announce posts an operation of the running thread and returns when it may happen.
func announce(o *op) {
	x := cur
	t := x.cur
	t.op = o
	raceOff()
	x.ctl <- t
	<-t.wake
	raceOn()
}
