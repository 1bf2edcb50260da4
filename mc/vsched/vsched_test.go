package vsched

import (
	"testing"
	"unsafe"
)

type cell struct{ v int }

func ptr(c *cell) unsafe.Pointer  { return unsafe.Pointer(c) }
func ptrb(c *byte) unsafe.Pointer { return unsafe.Pointer(c) }

// factorial: n threads, one write each to one object: n! classes.
func TestFactorial(t *testing.T) {
	for n, want := range map[int]int64{2: 2, 3: 6, 4: 24, 5: 120, 6: 720} {
		orders := map[string]bool{}
		cov, err := DPOR(0, func(s Strategy) (*Exec, bool) {
			c := new(cell)
			o := ""
			x := Run(s, false, false, func() {
				for i := 0; i < n; i++ {
					i := i
					Spawn(func() { Obj(ptr(c), false); o += string(rune('a' + i)) })
				}
			})
			orders[o] = true
			return x, x.Viol == ""
		})
		if err != nil || int64(len(orders)) != want || cov.Execs-cov.Redundant != want {
			t.Error(n, len(orders), cov, err)
		}
	}
}

// independent threads: a single class.
func TestIndependent(t *testing.T) {
	cov, err := DPOR(0, func(s Strategy) (*Exec, bool) {
		var c [6]cell
		x := Run(s, false, false, func() {
			for i := range c {
				i := i
				Spawn(func() { Obj(ptr(&c[i]), false); Obj(ptr(&c[i]), false) })
			}
		})
		return x, true
	})
	if err != nil || cov.Execs != 1 {
		t.Error(cov, err)
	}
}

// all outcomes of small programs of reads and writes, against brute force over all interleavings.
func TestOutcomes(t *testing.T) {
	progs := [][][]int{ // per thread: object, negative = read
		{{1, -2}, {2, -1}},
		{{1, -1}, {1, -1}, {-1}},
		{{1, 2}, {2, 1}, {-1, -2}},
		{{1, 1}, {-1, 2}, {-2, -1, 1}},
	}
	for pi, prog := range progs {
		body := func(s Strategy) (string, *Exec) {
			var obj [3]int
			var ids [3]byte
			res := make([]string, len(prog))
			fs := []func(){}
			for ti, ops := range prog {
				ti, ops := ti, ops
				fs = append(fs, func() {
					for k, o := range ops {
						if o < 0 {
							Obj(ptrb(&ids[-o]), true)
							res[ti] += string(rune('0' + obj[-o]))
						} else {
							Obj(ptrb(&ids[o]), false)
							obj[o] = 1 + ti*3 + k
						}
					}
				})
			}
			x := Run(s, false, false, fs...)
			out := ""
			for _, r := range res {
				out += r + "|"
			}
			return out + string(rune('0'+obj[1])) + string(rune('0'+obj[2])), x
		}
		a, b := map[string]bool{}, map[string]bool{}
		c1, err := DPOR(0, func(s Strategy) (*Exec, bool) { o, x := body(s); a[o] = true; return x, true })
		if err != nil {
			t.Fatal(err)
		}
		var n int64
		for first := -1; first < 40; first++ {
			c, err := Delays(9, first, true, false, func(s Strategy) (*Exec, bool) { o, x := body(s); b[o] = true; return x, true })
			if err != nil {
				t.Fatal(err)
			}
			n += c.Execs
		}
		if len(a) != len(b) {
			t.Errorf("program %d: DPOR %d outcomes (%d executions), all interleavings %d (%d)", pi, len(a), c1.Execs, len(b), n)
		}
		t.Log(pi, len(a), c1.Execs, n)
	}
}

// locks: both orders of two critical sections, and a lock-order deadlock.
func TestLocks(t *testing.T) {
	orders := map[string]bool{}
	_, err := DPOR(0, func(s Strategy) (*Exec, bool) {
		var l LockState
		o := ""
		x := Run(s, false, false, func() { Lock(&l); o += "a"; Unlock(&l) }, func() { Lock(&l); o += "b"; Unlock(&l) }, func() { Lock(&l); o += "c"; Unlock(&l) })
		orders[o] = true
		return x, x.Viol == ""
	})
	if err != nil || len(orders) != 6 {
		t.Error(orders, err)
	}
	dead := false
	_, err = DPOR(0, func(s Strategy) (*Exec, bool) {
		var l, m LockState
		x := Run(s, false, false, func() { Lock(&l); Lock(&m); Unlock(&m); Unlock(&l) }, func() { Lock(&m); Lock(&l); Unlock(&l); Unlock(&m) })
		dead = dead || x.Viol != ""
		return x, true
	})
	if err != nil || !dead {
		t.Error("no deadlock found", err)
	}
}

// channels: unbuffered rendezvous, buffered, close and select.
func TestChannels(t *testing.T) {
	out := map[string]bool{}
	cov, err := DPOR(0, func(s Strategy) (*Exec, bool) {
		c, d, q := make(chan int), make(chan int, 1), make(chan int)
		o := ""
		x := Run(s, false, false, func() { To(c)(1) }, func() { To(d)(2); Close(q) }, func() {
			for n := 0; n < 3; n++ {
				r := Select(false, RC(c), RC(d), RC(q))
				switch r.I {
				case 0:
					o += "c" + string(rune('0'+Got(c, r)))
				case 1:
					o += "d" + string(rune('0'+Got(d, r)))
				case 2:
					_, ok := Got2(q, r)
					if ok {
						o += "?"
					}
					o += "q"
				}
			}
			for _, v, ok := Range(q); ok; v, ok = Recv2(q) {
				_ = v
			}
		})
		out[o] = true
		return x, true
	})
	if err != nil || !out["c1d2q"] || !out["d2c1q"] || !out["qqq"] && !out["qc1d2"] {
		t.Error(out, cov, err)
	}
	t.Log(out, cov)
}
