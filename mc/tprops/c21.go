// Package tprops checks the terminal writer (C21).
package tprops

import (
	"fmt"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

// Kinds of events.
const (
	evKey = iota
	evEsc
	evCtrl
	evResize
	evShrink
	evMouse
	evError
	evInterrupt
	evRaw
	evNone
	nEvents

	// One key event per key and modifier, and per character; one mouse event per button and modifier.
	keyFirst   = 1000
	chFirst    = 10000
	mouseFirst = 20000000
)

// keys are the values of termbox's Key that a key event can have.
func keys() (out []int) {
	for k := 0; k <= 0x20; k++ {
		out = append(out, k)
	}
	out = append(out, 0x7f)
	for k := 0; k < 22; k++ {
		out = append(out, 0xffff-k) // F1 to the arrows
	}
	return
}

const mods = 4 // none, Alt, Motion, both

var evNames = []string{"key", "escape", "ctrl-space", "resize", "shrink", "mouse", "error", "interrupt", "raw", "none"}

func isKey(e int) bool { return e <= evCtrl || e >= keyFirst && e < mouseFirst }

func evName(e int) string {
	switch {
	case e >= mouseFirst:
		return fmt.Sprintf("mouse button %d modifier %d", (e-mouseFirst)/mods, (e-mouseFirst)%mods)
	case e >= chFirst:
		return fmt.Sprintf("key %q modifier %d", rune(e-chFirst)/mods, (e-chFirst)%mods)
	case e >= keyFirst:
		return fmt.Sprintf("key %#x modifier %d", keys()[(e-keyFirst)/mods], (e-keyFirst)%mods)
	}
	return evNames[e]
}

// save is one New and Save on a terminal.
type save struct {
	ver, ec, k int
	w, h       int   // terminal size; 0: large enough
	events     []int // the save must end at the first key
	fail       bool  // the flush fails
}

// story is a sequence of saves of one process.
type story []save

func (s story) String() string {
	out := ""
	for _, a := range s {
		out += fmt.Sprintf("version %d-%d text %d", a.ver, a.ec, a.k)
		if a.w > 0 {
			out += fmt.Sprintf(" on %dx%d cells", a.w, a.h)
		}
		if a.fail {
			out += ", flush fails"
		}
		for _, e := range a.events {
			out += ", " + evName(e)
		}
		out += "; "
	}
	return out
}

func code(ver, ec, k int) (*qrcode.QRCode, *ref.Symbol) {
	q, err := qrcode.NewWith(fmt.Sprintf("terminal %d", k), qr.Ver(ver), qr.EC[ec])
	if err != nil {
		q, err = qrcode.NewWith(fmt.Sprint(k), qr.Ver(ver), qr.EC[ec])
	}
	if err != nil {
		panic(err)
	}
	s, err := qr.Of(q)
	if err != nil {
		panic(err)
	}
	return q, s
}

// Set by the build with the scripted terminal.
var runStory = func(s story) eng.Out { panic("no scripted terminal in this build") }

// Set by the build with the real library.
var runPty = func(p ptyCase) eng.Out { panic("no real terminal in this build") }

// ptyCase is one save in a process on a pseudo terminal.
type ptyCase struct {
	ver, ec    int
	cols, rows int
	term       string
	events     []string // sent before the key
	key        string
}

func (p ptyCase) String() string {
	return fmt.Sprintf("version %d-%d on a real %s of %dx%d, events %q, key %q", p.ver, p.ec, p.term, p.cols, p.rows, p.events, p.key)
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C21", Level: "exploration",
		Rule: "a sequence of New and Save on a scripted terminal per case: the cells shown at the first wait, the polls made, the flush result and the calls of Close are compared with the expected ones. The scripted terminal replaces only the library's access to the device; the real library is run on a pseudo terminal with the same codes and its output interpreted. Distinct by sequence.",
		Assumptions: []string{
			"a cell shows its foreground colour for a full block and its background colour for a space; dark is ColorBlack and light is ColorWhite of termbox",
			"cells outside the terminal are lost (termbox drops them)",
		},
		Bounds: map[string]string{
			"quick":    "40 versions x 4 levels x 2 texts; all sequences of up to 4 of 10 kinds of events; every key and 1289 characters with every modifier, every mouse button; up to 2000 events of one kind or of all kinds before the key; flush failure; all sequences of up to 3 saves over 12 kinds; terminals too small for the symbol; a real pseudo terminal with 8 versions and 3 terminal types",
			"thorough": "12 texts; all sequences of up to 5 events; sequences of up to 4 saves; 40 versions on the pseudo terminal",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			ks, depth, nsaves := 2, 4, 3
			if th {
				ks, depth, nsaves = 12, 5, 4
			}
			var sym, evs, hist, small []story
			for v := 1; v <= 40; v++ {
				for ec := 0; ec < 4; ec++ {
					for k := 0; k < ks; k++ {
						sym = append(sym, story{{ver: v, ec: ec, k: k, events: []int{evKey}}})
					}
				}
			}
			var words func(n, k int, f func([]int))
			words = func(n, k int, f func([]int)) {
				if n == 0 {
					f(nil)
					return
				}
				words(n-1, k, func(w []int) {
					for i := 0; i < k; i++ {
						f(append(w[:len(w):len(w)], i))
					}
				})
			}
			for d := 0; d <= depth; d++ {
				words(d, nEvents, func(w []int) { evs = append(evs, story{{ver: 1, ec: 1, events: w}}) })
			}
			var every []story
			one := func(e int) {
				every = append(every, story{{ver: 1, ec: 1, events: []int{e, evKey}}})
			}
			for i := 0; i < mods*len(keys()); i++ {
				one(keyFirst + i)
			}
			for m := 0; m < mods; m++ {
				for r := 1; r < 0x500; r++ {
					one(chFirst + r*mods + m)
				}
				for _, r := range []int{0x7ff, 0x800, 0x20ac, 0x4e00, 0xac00, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff} {
					one(chFirst + r*mods + m)
				}
			}
			for i := 0; i < 6*mods; i++ {
				one(mouseFirst + i)
			}
			// Long waits: many events of one kind, and of all kinds in turn, before the key.
			long := []int{5, 8, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2000}
			if th {
				long = append(long, 4096, 4097, 10000, 65536)
			}
			var waits []story
			for e := evResize; e <= nEvents; e++ {
				for _, n := range long {
					var w []int
					for i := 0; i < n; i++ {
						k := e
						if e == nEvents {
							k = evResize + i%(nEvents-evResize)
						}
						w = append(w, k)
					}
					waits = append(waits, story{{ver: 1, ec: 1, events: append(w, evKey)}}, story{{ver: 2, events: w}})
				}
			}
			kinds := []save{
				{ver: 1, events: []int{evKey}}, {ver: 2, ec: 1, k: 1, events: []int{evResize, evKey}}, {ver: 7, ec: 2, events: []int{evEsc}},
				{ver: 1, k: 3, fail: true}, {ver: 5, fail: true}, {ver: 3, ec: 3, events: []int{evMouse, evError, evCtrl}},
				{ver: 1, k: 5, w: 20, h: 10, events: []int{evKey}}, {ver: 4, w: 66, h: 35, events: []int{evKey}}, {ver: 4, w: 70, h: 36, events: []int{evShrink, evNone, evKey}},
				{ver: 14, ec: 1, events: []int{evInterrupt, evRaw, evKey}}, {ver: 40, events: []int{evKey}}, {ver: 1, w: 1, h: 1, events: []int{evKey}},
			}
			for d := 1; d <= nsaves; d++ {
				words(d, len(kinds), func(w []int) {
					var s story
					for _, k := range w {
						s = append(s, kinds[k])
					}
					hist = append(hist, s)
				})
			}
			for _, v := range []int{1, 2, 6} {
				n := 17 + 4*v
				for dw := -8; dw <= 8; dw++ {
					for dh := -5; dh <= 5; dh++ {
						small = append(small, story{{ver: v, w: 2*n + 4 + dw, h: n + 2 + dh, events: []int{evKey}}})
					}
				}
				for _, w := range []int{1, 2, 3, 10, n, 2 * n} {
					for _, h := range []int{1, 2, n / 2, n} {
						small = append(small, story{{ver: v, w: w, h: h, events: []int{evMouse, evKey}}})
					}
				}
			}
			var ptys []ptyCase
			for v := 1; v <= 40; v++ {
				if !th && v > 7 && v != 15 {
					continue
				}
				for i, t := range []string{"xterm", "screen", "rxvt-unicode"} {
					n := 17 + 4*v
					p := ptyCase{ver: v, ec: (v + i) % 4, cols: 2*n + 30, rows: n + 10, term: t, key: []string{"x", "\r", "\x1b", "\x1b[A", "é", "\x03", " ", "\x1bOP", "\x7f", "漢"}[(3*v+i)%10]}
					if v%2 == 0 {
						p.events = []string{"resize"}
					}
					ptys = append(ptys, p)
				}
			}
			sp := func(name string, l []story) *eng.Space {
				return &eng.Space{Name: name, N: int64(len(l)), Run: func(i int64) eng.Out { return runStory(l[i]) }, Desc: func(i int64) string { return l[i].String() }}
			}
			return []*eng.Space{
				sp("symbols", sym), sp("events", evs), sp("keys", every), sp("long waits", waits), sp("sequences of saves", hist), sp("small terminals", small),
				{Name: "real library", N: int64(len(ptys)), Chunk: 1, Bin: "real", Limit: 200, Env: true, Run: func(i int64) eng.Out { return runPty(ptys[i]) }, Desc: func(i int64) string { return ptys[i].String() }},
			}
		},
	})
}
