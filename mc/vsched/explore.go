package vsched

import (
	"fmt"
	"sort"
)

// Coverage counts what an exploration covered.
type Coverage struct {
	Execs, Steps, MaxSteps int64
	Redundant              int64 // executions cut short by sleep sets
	Capped                 bool
	Races                  int64 // reversible pairs found
}

// node is a state of the depth-first search.
type node struct {
	data      bool
	n         int // alternatives of a data choice
	enabled   []int
	pend      map[int]pending // next operation of every live process
	chosen    int
	done      map[int]bool
	backtrack map[int]bool
	sleep     map[int]bool
	acc       []Acc
	kind      Kind
	clock     []int // of the executed operation
}

type pending struct {
	acc  []Acc
	kind Kind
}

func dependent(a, b pending) bool {
	for _, x := range a.acc {
		for _, y := range b.acc {
			if x.Obj == y.Obj && !(x.Mode == 0 && y.Mode == 0) && !(x.Mode == 2 && y.Mode == 2) {
				return true
			}
		}
	}
	return false
}

// coenabled: operations that can never be enabled together cannot be reversed.
func coenabled(a, b Kind) bool {
	if a > b {
		a, b = b, a
	}
	switch {
	case a == KLock && (b == KUnlock || b == KRUnlock):
		return false
	case a == KUnlock && (b == KRLock || b == KUnlock || b == KRUnlock):
		return false
	case a == KWait && b == KDone:
		return false
	case a == KOnce && b == KOnceEnd:
		return false
	}
	return true
}

// Stop, when it gives true, ends an exploration early (it counts as capped then).
var Stop = func() bool { return false }

// DPOR explores one execution of every class of equivalent interleavings (dynamic partial-order
// reduction with sleep sets). cap bounds the number of executions (0: none). run executes the program
// under the strategy and returns false to stop.
func DPOR(capExecs int64, run func(Strategy) (*Exec, bool)) (cov Coverage, err error) {
	d := &dpor{}
	for {
		d.depth, d.cut, d.diverged = 0, false, ""
		d.clocks = nil
		x, ok := run(d)
		cov.Execs++
		cov.Capped = cov.Capped || x.Endless
		cov.Steps += int64(x.Steps)
		if int64(x.Steps) > cov.MaxSteps {
			cov.MaxSteps = int64(x.Steps)
		}
		if d.cut {
			cov.Redundant++
		}
		if !ok {
			return
		}
		if d.diverged != "" {
			return cov, fmt.Errorf("replay diverged: %s", d.diverged)
		}
		d.stack = d.stack[:d.depth]
		d.finish(x)
		if !d.next() {
			cov.Races = d.races
			return
		}
		if capExecs > 0 && cov.Execs >= capExecs || Stop() {
			cov.Capped = true
			cov.Races = d.races
			return
		}
	}
}

type dpor struct {
	stack    []*node
	depth    int
	replay   int // nodes below this depth are replayed
	cut      bool
	diverged string
	races    int64
	clocks   [][]int // current clock of every process
	me       pending // the operation the race analysis is about
}

func (d *dpor) pending(x *Exec) map[int]pending {
	m := map[int]pending{}
	for p := 0; p < x.nproc; p++ {
		t := x.next(p)
		if t == nil { // blocked: the first live thread's operation
			for _, u := range x.threads {
				if u.proc == p && !u.fin {
					t = u
					break
				}
			}
		}
		if t != nil {
			m[p] = pending{t.op.acc, t.op.kind}
		}
	}
	return m
}

func (d *dpor) Pick(x *Exec, enabled []int) int {
	if d.cut {
		return -1
	}
	if d.depth < d.replay {
		n := d.stack[d.depth]
		if n.data || !sameInts(n.enabled, enabled) {
			d.diverged = fmt.Sprintf("step %d: enabled %v, was %v", d.depth, enabled, n.enabled)
			d.cut = true
			return -1
		}
		n.pend = d.pending(x)
		return n.chosen
	}
	n := &node{enabled: append([]int(nil), enabled...), done: map[int]bool{}, backtrack: map[int]bool{}, sleep: map[int]bool{}, pend: d.pending(x)}
	if k := d.prev(d.depth); k != nil {
		// addresses differ between executions: use the operations seen in this one
		stay := func(q int) {
			if o, ok := k.pend[q]; ok && q != k.chosen && !dependent(o, pending{k.acc, k.kind}) {
				n.sleep[q] = true
			}
		}
		for q := range k.sleep {
			stay(q)
		}
		for q := range k.done {
			stay(q)
		}
	}
	last := -1
	if x.cur != nil {
		last = x.cur.proc
	}
	n.chosen = -1
	for _, p := range enabled {
		if n.sleep[p] {
			continue
		}
		if n.chosen < 0 || p == last && n.pend[p].kind != KYield || n.pend[n.chosen].kind == KYield {
			n.chosen = p
		}
	}
	if n.chosen < 0 {
		d.cut = true // every continuation has been explored elsewhere
		return -1
	}
	n.backtrack[n.chosen] = true
	d.stack = append(d.stack[:d.depth], n)
	return n.chosen
}

// prev is the last scheduling (not data) node before depth i.
func (d *dpor) prev(i int) *node {
	for i--; i >= 0; i-- {
		if !d.stack[i].data {
			return d.stack[i]
		}
	}
	return nil
}

func (d *dpor) Data(x *Exec, n int) int {
	if d.cut {
		return 0
	}
	// the data choice comes after the Pick of the same operation, whose node is at depth (not counted yet)
	if d.depth+1 < d.replay {
		k := d.stack[d.depth+1]
		if !k.data || k.n != n {
			d.diverged = fmt.Sprintf("step %d: choice of %d", d.depth+1, n)
			d.cut = true
			return 0
		}
		return k.chosen
	}
	k := &node{data: true, n: n, done: map[int]bool{}, backtrack: map[int]bool{}}
	for i := 0; i < n; i++ {
		k.backtrack[i] = true
	}
	d.stack = append(d.stack[:d.depth+1], k)
	return 0
}

// Spawned gives a new process the clock of the one that started it.
func (d *dpor) Spawned(x *Exec, parent, child int) {
	if d.cut || parent == child {
		return
	}
	for len(d.clocks) < x.nproc {
		d.clocks = append(d.clocks, nil)
	}
	d.clocks[child] = append([]int(nil), d.clocks[parent]...)
}

func (d *dpor) Did(x *Exec, p int, acc []Acc, kind Kind) {
	if d.cut {
		return
	}
	n := d.stack[d.depth]
	n.acc, n.kind = acc, kind
	for len(d.clocks) < x.nproc {
		d.clocks = append(d.clocks, nil)
	}
	// happens-before clock of this operation
	c := make([]int, x.nproc)
	merge := func(o []int) {
		for i, v := range o {
			if i < len(c) && v > c[i] {
				c[i] = v
			}
		}
	}
	merge(d.clocks[p])
	me := pending{acc, kind}
	d.me = me
	// Race analysis: earlier operations of other processes that depend on this one, may be reversed, and
	// are not ordered before it by anything but their own direct dependency. An unlock orders but cannot be
	// reversed with the lock that follows it, so it does not hide the race between the two locks.
	rc := append([]int(nil), c...)
	for i := d.depth - 1; i >= 0; i-- {
		k := d.stack[i]
		if k.data || k.chosen == p || !dependent(pending{k.acc, k.kind}, me) {
			continue
		}
		if coenabled(k.kind, kind) && !before(k, rc) {
			d.races++
			d.addBacktrack(i, p, d.clocks[p])
			for j, v := range k.clock {
				if v > rc[j] {
					rc[j] = v
				}
			}
		}
		merge(k.clock)
	}
	c[p] = d.depth + 1
	n.clock = c
	d.clocks[p] = c
	d.depth++
	if d.depth < len(d.stack) && d.stack[d.depth].data {
		d.depth++
	}
}

// before reports whether the operation of node k happens before a process with clock c.
func before(k *node, c []int) bool {
	return k.chosen < len(c) && k.clock[k.chosen] <= c[k.chosen]
}

// addBacktrack makes sure that the race between the operation at depth i and the next operation of
// process p (accesses me, clock c without that operation) is also run the other way round: some process
// that can come first in the part of the execution that does not depend on operation i, followed by p,
// must be explored from that state (the source sets of Abdulla et al.).
func (d *dpor) addBacktrack(i, p int, c []int) {
	n := d.stack[i]
	var v []*node // operations after i that do not happen after it
	for j := i + 1; j < d.depth; j++ {
		k := d.stack[j]
		if !k.data && !before(n, k.clock) {
			v = append(v, k)
		}
	}
	var initials []int
	seen := map[int]bool{}
	for a, k := range v {
		if seen[k.chosen] {
			continue
		}
		seen[k.chosen] = true
		first := true
		for _, l := range v[:a] {
			if before(l, k.clock) {
				first = false
				break
			}
		}
		if first {
			initials = append(initials, k.chosen)
		}
	}
	if !seen[p] {
		first := true
		for _, l := range v {
			if before(l, c) || dependent(pending{l.acc, l.kind}, d.me) {
				first = false
				break
			}
		}
		if first {
			initials = append(initials, p)
		}
	}
	add := -1
	for _, q := range initials {
		if n.backtrack[q] {
			return
		}
		if contains(n.enabled, q) {
			if !n.sleep[q] || add < 0 {
				add = q
			}
		}
	}
	if add >= 0 {
		n.backtrack[add] = true
		return
	}
	for _, q := range n.enabled {
		n.backtrack[q] = true
	}
}

// finish treats operations that were still waiting when the execution ended (a deadlock).
func (d *dpor) finish(x *Exec) {
	if d.cut {
		return
	}
	for p, o := range d.pending(x) {
		if p >= len(d.clocks) {
			continue
		}
		for i := d.depth - 1; i >= 0; i-- {
			k := d.stack[i]
			if k.data || k.chosen == p || !dependent(pending{k.acc, k.kind}, o) {
				continue
			}
			if coenabled(k.kind, o.kind) && !before(k, d.clocks[p]) {
				d.me = o
				d.addBacktrack(i, p, d.clocks[p])
				break
			}
		}
	}
}

// next moves to the next unexplored alternative.
func (d *dpor) next() bool {
	for len(d.stack) > 0 {
		n := d.stack[len(d.stack)-1]
		n.done[n.chosen] = true
		var alt []int
		for q := range n.backtrack {
			if !n.done[q] && !n.sleep[q] {
				alt = append(alt, q)
			}
		}
		if len(alt) > 0 {
			sort.Ints(alt)
			n.chosen = alt[0]
			d.replay = len(d.stack)
			return true
		}
		d.stack = d.stack[:len(d.stack)-1]
	}
	return false
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func contains(a []int, v int) bool {
	for _, x := range a {
		if x == v {
			return true
		}
	}
	return false
}

// Delays explores all executions with at most bound deviations from the default schedule, which lets
// the running process go on and otherwise takes the next one in turn. A deviation takes another
// enabled process: the next in turn only (anyOther false) or any of them. Only the subtree whose first
// deviation happens at step first is explored; first<0 explores the default execution alone.
// spread makes the default schedule switch to the next process at every step (round robin).
func Delays(bound int, first int, anyOther, spread bool, run func(Strategy) (*Exec, bool)) (cov Coverage, err error) {
	b := &delay{any: anyOther, spread: spread}
	var rec func(dev map[int]int, from, left int) bool
	rec = func(dev map[int]int, from, left int) bool {
		b.dev, b.step, b.last, b.same = dev, 0, -1, 0
		b.width = b.width[:0]
		b.diverged = ""
		x, ok := run(b)
		cov.Execs++
		cov.Capped = cov.Capped || x.Endless
		cov.Steps += int64(x.Steps)
		if int64(x.Steps) > cov.MaxSteps {
			cov.MaxSteps = int64(x.Steps)
		}
		if !ok {
			return false
		}
		if b.diverged != "" {
			err = fmt.Errorf("replay diverged: %s", b.diverged)
			return false
		}
		if left == 0 {
			return true
		}
		if Stop() {
			cov.Capped = true
			return false
		}
		width := append([]int(nil), b.width...)
		lo, hi := from, len(width)
		if len(dev) == 0 {
			lo, hi = first, first+1
			if hi > len(width) {
				hi = len(width)
			}
		}
		for i := lo; i < hi; i++ {
			for a := 1; a < width[i]; a++ {
				nd := map[int]int{i: a}
				for k, v := range dev {
					nd[k] = v
				}
				if !rec(nd, i+1, left-1) {
					return false
				}
			}
		}
		return true
	}
	if first < 0 {
		rec(map[int]int{}, 0, 0)
	} else {
		rec(map[int]int{}, 0, bound)
	}
	return
}

type delay struct {
	dev      map[int]int
	step     int
	last     int
	same     int
	any      bool
	spread   bool
	width    []int
	diverged string
}

func (b *delay) choose(n int) int {
	c := b.dev[b.step]
	if c >= n {
		b.diverged = fmt.Sprintf("step %d: alternative %d of %d", b.step, c, n)
		c = 0
	}
	b.width = append(b.width, n)
	b.step++
	return c
}

func (b *delay) Pick(x *Exec, enabled []int) int {
	// canonical order: in turn, starting with the running process (or the one after it)
	k := 0
	for i, p := range enabled {
		if p >= b.last {
			k = i
			break
		}
	}
	if enabled[k] == b.last {
		b.same++
	} else {
		b.same = 0
	}
	if enabled[k] == b.last && len(enabled) > 1 && (b.spread || b.same > 2000 || x.next(b.last).op.kind == KYield) {
		k = (k + 1) % len(enabled)
	}
	n := len(enabled)
	if !b.any && n > 2 {
		n = 2
	}
	c := b.choose(n)
	p := enabled[(k+c)%len(enabled)]
	b.last = p
	return p
}

func (b *delay) Data(x *Exec, n int) int { return b.choose(n) }

func (b *delay) Spawned(*Exec, int, int) {}

func (b *delay) Did(*Exec, int, []Acc, Kind) {}
