// Package sprops holds the properties about schedules (C07, C08). It is built together with the
// instrumented packages of /repo.
package sprops

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"runtime"
	"sync"
	"time"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"
	"verif.local/mc/vsched"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

var snapOnce sync.Once

// fresh puts the package state of the code under test back to that of a fresh process.
func fresh() {
	snapOnce.Do(vsched.Snapshot)
	vsched.Reset()
}

type job struct {
	name string
	text string
	opts []qrcode.EncodeOption
	ver  int // 0: automatic
	ec   int
	// debug has the encode run in debug mode.
	debug bool
}

func mkJob(name, text string, ver, ec int) job {
	j := job{name: name, text: text, ver: ver, ec: ec, opts: []qrcode.EncodeOption{qr.EC[ec]}}
	if ver > 0 {
		j.opts = append(j.opts, qr.Ver(ver))
	}
	return j
}

// tieTexts finds short texts whose lowest penalty is shared by several masks: want of them for every
// number of masks that tie.
func tieTexts(want int) (out []job) {
	found := map[int]int{}
	firsts := map[int]bool{}
	for i := 0; i < 4000; i++ {
		t := fmt.Sprintf("%d", i*7919%100000)
		if i%3 == 1 {
			t = "T" + t
		} else if i%3 == 2 {
			t = "t" + t
		}
		min, n, first := 1<<30, 0, 0
		for m := 0; m < 8; m++ {
			s, err := ref.Encode(t, ref.AutoMode(t), 1, ref.L, m)
			if err != nil {
				n = 0
				break
			}
			lo, hi := ref.PenaltyRange(s)
			if lo != hi {
				n = 0
				break
			}
			if lo < min {
				min, n, first = lo, 1, m
			} else if lo == min {
				n++
			}
		}
		if n > 1 && (found[n] < want || !firsts[first]) {
			found[n]++
			firsts[first] = true
			out = append(out, mkJob(fmt.Sprintf("tie%d", n), t, 1, ref.L))
		}
	}
	return
}

var tiesOnce sync.Once
var tiesAll []job

func ties(n int) []job {
	tiesOnce.Do(func() { tiesAll = tieTexts(3) })
	if n > len(tiesAll) {
		n = len(tiesAll)
	}
	return tiesAll[:n]
}

type result struct {
	sym *ref.Symbol
	err error
}

func (r result) key() string {
	if r.err != nil {
		return "error: " + r.err.Error()
	}
	if r.sym == nil {
		return "nothing"
	}
	return fmt.Sprintf("%x", hashSym(r.sym))
}

func hashSym(s *ref.Symbol) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range s.B {
		v := uint64(0)
		if c {
			v = 1
		}
		h = (h ^ v) * 1099511628211
	}
	return h
}

func (j job) run() (r result) {
	if j.debug {
		qrcode.SetDebugMode()
	}
	q, err := qrcode.NewWith(j.text, j.opts...)
	if err != nil {
		return result{err: err}
	}
	s, err := qr.Of(q)
	return result{s, err}
}

// judge checks one observed symbol.
func (j job) judge(r result) string {
	if r.err != nil {
		return "encoding failed: " + r.err.Error()
	}
	d, err := ref.DecodeStrict(r.sym)
	if err != nil {
		return "symbol is not readable: " + err.Error()
	}
	if !bytes.Equal(d.Text, []byte(j.text)) {
		return fmt.Sprintf("symbol reads %q", d.Text)
	}
	if d.EC != j.ec || j.ver > 0 && d.Ver != j.ver {
		return fmt.Sprintf("symbol is %d-%s", d.Ver, qr.ECName[d.EC])
	}
	cw, _ := ref.Codewords(r.sym, d.Mask)
	low, _ := ref.PenaltyRange(r.sym)
	for m := 0; m < 8; m++ {
		c := ref.Draw(cw, d.Ver, d.EC, m)
		if _, hi := ref.PenaltyRange(c); hi < low {
			return fmt.Sprintf("mask %d with penalty %d, but mask %d has %d", d.Mask, low, m, hi)
		}
	}
	return ""
}

type explorer func(run func(vsched.Strategy) (*vsched.Exec, bool)) (vsched.Coverage, error)

// explore runs one encode under all schedules of the explorer.
func (j job) explore(ex explorer) eng.Out {
	var seen string
	var viol string
	full := int64(0)
	if j.debug { // the symbol without debugging
		p := j
		p.debug = false
		vsched.Delays(0, -1, true, false, func(st vsched.Strategy) (*vsched.Exec, bool) {
			fresh()
			var r result
			x := vsched.Run(st, false, false, func() { r = p.run() })
			seen = r.key()
			return x, true
		})
	}
	cov, err := ex(func(st vsched.Strategy) (*vsched.Exec, bool) {
		fresh()
		var r result
		x := vsched.Run(st, false, true, func() { r = j.run() })
		switch {
		case x.Viol != "":
			viol = x.Viol + "\nschedule: " + x.Schedule()
			return x, false
		case x.Endless || !x.MainDone[0]:
			return x, true // cut by a sleep set or by the step bound
		}
		full++
		k := r.key()
		if seen == "" {
			if viol = j.judge(r); viol != "" {
				return x, false
			}
			seen = k
		} else if k != seen {
			viol = fmt.Sprintf("this schedule gives another symbol than the first one explored (%s, was %s)\nschedule: %s", k, seen, x.Schedule())
			return x, false
		}
		return x, true
	})
	if viol != "" {
		return eng.Out{Viol: viol}
	}
	o := eng.Out{Key: fmt.Sprintf("%s %s", j.name, seen), Extra: map[string]int64{
		"schedules": full, "states_or_transitions": cov.Steps, "executions_cut_as_redundant": cov.Redundant, "reversible_pairs": cov.Races}}
	if cov.Capped || err != nil { // err: the same decisions did not give the same execution again
		o.Extra["capped"] = 1
	}
	for i := int64(0); i < full; i++ {
		if i < 1<<20 {
			o.Keys = append(o.Keys, fmt.Sprintf("%s schedule %d", j.name, i))
		}
	}
	return o
}

func (j job) String() string {
	v := "automatic version"
	if j.ver > 0 {
		v = fmt.Sprintf("version %d", j.ver)
	}
	if j.debug {
		v += " with debugging"
	}
	return fmt.Sprintf("%s: %q %s level %s", j.name, trunc(j.text), v, qr.ECName[j.ec])
}

func trunc(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

// texts of a given version and mode that nearly fill the symbol.
func filled(ver, ec int, m ref.Mode, salt int) job {
	n := ref.Cap(ver, ec, m)
	var b []byte
	x := uint32(salt)*2654435761 + 99
	for i := 0; i < n; i++ {
		x = x*1664525 + 1013904223
		v := int(x >> 10)
		switch m {
		case ref.Numeric:
			b = append(b, byte('0'+v%10))
		case ref.Alnum:
			b = append(b, ref.AlnumSet[v%45])
		default:
			b = append(b, byte('a'+v%26))
		}
	}
	return mkJob(fmt.Sprintf("full-v%d", ver), string(b), ver, ec)
}

func steps(j job, spread bool) int64 {
	fresh()
	cov, _ := vsched.Delays(0, -1, true, spread, func(st vsched.Strategy) (*vsched.Exec, bool) {
		return vsched.Run(st, false, false, func() { j.run() }), true
	})
	return cov.Steps
}

// delaySpace explores all schedules of the jobs with at most bound deviations from the default schedule
// (run on until blocked, or round robin), one case per step of the first deviation.
func delaySpace(name string, jobs []job, bound int, anyOther, spread bool, bin string) *eng.Space {
	type span struct {
		j     job
		first int64
	}
	const width = 16 // first deviations handled by one case
	var cs []span
	for _, j := range jobs {
		n := steps(j, spread)
		for f := int64(0); f <= n; f += width {
			cs = append(cs, span{j, f})
		}
	}
	return &eng.Space{Name: name, N: int64(len(cs)), Chunk: 1, Limit: 600, Bin: bin,
		Run: func(i int64) eng.Out {
			c := cs[i]
			return c.j.explore(func(run func(vsched.Strategy) (*vsched.Exec, bool)) (cov vsched.Coverage, err error) {
				for f := c.first; f < c.first+width; f++ {
					one, e := vsched.Delays(bound, int(f), anyOther, spread, run)
					cov.Execs += one.Execs
					cov.Steps += one.Steps
					cov.Capped = cov.Capped || one.Capped
					if e != nil {
						return cov, e
					}
				}
				return
			})
		},
		Desc: func(i int64) string {
			c := cs[i]
			return fmt.Sprintf("%s, first deviation at step %d-%d of the %s schedule, up to %d deviations", c.j, c.first, c.first+width-1,
				map[bool]string{true: "round-robin", false: "run-on"}[spread], bound)
		}}
}

func dporSpace(name string, jobs []job, capExecs int64, bin string) *eng.Space {
	return &eng.Space{Name: name, N: int64(len(jobs)), Chunk: 1, Limit: 3000, Bin: bin,
		Run: func(i int64) eng.Out {
			return jobs[i].explore(func(run func(vsched.Strategy) (*vsched.Exec, bool)) (vsched.Coverage, error) {
				return vsched.DPOR(capExecs, run)
			})
		},
		Desc: func(i int64) string { return jobs[i].String() + ", all schedules (partial-order reduction)" }}
}

// freeSpace runs encodes on the real scheduler, under the race detector in the race build.
func freeSpace(name string, jobs []job, reps int, bin string) *eng.Space {
	return &eng.Space{Name: name, N: int64(len(jobs)), Chunk: 1, Limit: 120, Bin: bin, Procs: 8,
		Run: func(i int64) eng.Out {
			j := jobs[i]
			if viol := settled(); viol != "" {
				return eng.Out{Viol: viol}
			}
			base := runtime.NumGoroutine()
			first := ""
			for k := 0; k < reps; k++ {
				r := j.run()
				if first == "" {
					if v := j.judge(r); v != "" {
						return eng.Out{Viol: v}
					}
					first = r.key()
				} else if r.key() != first {
					return eng.V("run %d gives another symbol", k)
				}
			}
			for t := 0; runtime.NumGoroutine() > base; t++ {
				if t > 400 {
					return eng.V("%d goroutines are left after encoding", runtime.NumGoroutine()-base)
				}
				time.Sleep(5 * time.Millisecond)
			}
			return eng.Out{Key: j.name + " " + first, Extra: map[string]int64{"runs_on_the_real_scheduler": int64(reps)}}
		},
		Desc: func(i int64) string { return fmt.Sprintf("%s, %d runs on the real scheduler", jobs[i], reps) }}
}

func settled() string { return "" }

func init() {
	eng.Register(&eng.Prop{
		ID: "C07", Level: "exploration",
		Rule: "one execution per schedule: the goroutines of one encode run one at a time under a controlled scheduler on the real (instrumented) code, starting from the package state of a fresh process; each execution must finish with all goroutines, without panic, and give the identical symbol, which must be readable and have the lowest penalty. Distinct by text and schedule; the dpor spaces run exactly one schedule of every equivalence class.",
		Assumptions: []string{
			"scheduling points are the synchronisation operations (go, channels, sync, sync/atomic, Sleep, Gosched) of the root package; code between them is race-free, which the race-detector spaces check on the same schedules (hand-overs of the scheduler are hidden from the detector)",
			"equivalent schedules (same order of dependent synchronisation operations) give the same result when there is no data race",
		},
		Bounds: map[string]string{
			"quick":    "all schedules (up to equivalence) of 8 version-1 encodes, 7 of them with tied lowest penalties; all schedules with 1 deviation from run-on (any other goroutine), with 1 from round-robin, for versions 1, 2, 7, the latter also with debugging for a text with tied penalties; race detector on all schedules with 1 deviation of versions 1 and 7",
			"thorough": "all schedules of 12 encodes incl. versions 2 and 7; up to 2 deviations for version 1 and 7, 1 deviation for versions 14, 25, 40; 1 deviation with debugging for two texts with tied penalties; race detector on all schedules of one text and 1-2 deviations of others",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			tie := ties(7)
			log.SetOutput(io.Discard)
			dbg := append([]job(nil), tie[:2]...)
			for i := range dbg {
				dbg[i].debug = true
			}
			plain := []job{mkJob("auto", "hello", 0, ref.Q), mkJob("byte-v2", "https://example.org/", 2, ref.L), filled(7, ref.M, ref.Byte, 1)}
			var sp []*eng.Space
			if len(vsched.Instrumented) == 0 {
				all := append(append([]job(nil), tie...), plain...)
				sp = append(sp, freeSpace("free", all, 20, ""), freeSpace("free-race", all, 4, "race"))
				for _, s := range sp {
					run := s.Run
					s.Run = func(i int64) eng.Out {
						o := run(i)
						if o.Extra != nil {
							o.Extra["capped"] = 1
						}
						return o
					}
				}
				return sp
			}
			if th {
				sp = append(sp,
					dporSpace("dpor", append(append([]job(nil), tie...), plain...), 0, ""),
					delaySpace("delay2-round-robin", append(tie[:1:1], plain[2]), 2, false, true, ""),
					delaySpace("delay2-run-on", append(tie[:1:1], plain[2]), 2, true, false, ""),
					delaySpace("delay1-large", []job{filled(14, ref.L, ref.Alnum, 2), filled(25, ref.Q, ref.Numeric, 3), filled(40, ref.H, ref.Byte, 4)}, 1, true, true, ""),
					delaySpace("delay1-debug", dbg, 1, true, false, ""),
					delaySpace("delay1-debug-round-robin", dbg, 1, true, true, ""),
					freeSpace("free", append(tie, filled(40, ref.L, ref.Byte, 5)), 200, ""),
					delaySpace("race-delay1", append(tie[:2:2], plain...), 1, true, true, "race"),
					delaySpace("race-delay2", tie[:1], 2, false, true, "race"),
					dporSpace("race-dpor", tie[:1], 0, "race"),
					freeSpace("race-free", plain, 20, "race"),
				)
				return sp
			}
			sp = append(sp,
				dporSpace("dpor", append(tie, plain[0]), 0, ""),
				delaySpace("delay1-run-on", append(tie[:1:1], plain...), 1, true, false, ""),
				delaySpace("delay1-round-robin", append(tie[:1:1], plain...), 1, true, true, ""),
				delaySpace("delay1-debug", dbg[:1], 1, true, true, ""),
				freeSpace("free", append(tie, plain...), 30, ""),
				delaySpace("race-delay1", []job{tie[0], plain[2]}, 1, false, true, "race"),
				freeSpace("race-free", plain, 4, "race"),
			)
			return sp
		},
	})
}
