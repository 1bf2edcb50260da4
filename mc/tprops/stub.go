//go:build verifstub

package tprops

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"verif.local/mc/eng"
	"verif.local/mc/ref"

	termbox "github.com/nsf/termbox-go"
	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/terminal"
)

func init() { runStory = tell }

// Helper does nothing in this build.
func Helper() {}

var errFlush = errors.New("flush fault")

// colour is what a cell looks like: 1 dark, 0 light, -1 neither.
func colour(c termbox.Cell) int {
	fg, bg := c.Fg, c.Bg
	if (fg|bg)&termbox.AttrReverse != 0 {
		fg, bg = bg, fg
	}
	var v termbox.Attribute
	switch c.Ch {
	case '█':
		v = fg
	case ' ':
		v = bg
	default:
		return -1
	}
	switch v & 0x1ff {
	case termbox.ColorBlack:
		return 1
	case termbox.ColorWhite:
		return 0
	}
	return -1
}

// picture checks the symbol and its margin on the part of the screen that exists.
func picture(s *ref.Symbol, shown []termbox.Cell, w int) string {
	if w == 0 {
		return "nothing is shown"
	}
	h := len(shown) / w
	for y := 0; y < min(h, s.N+2); y++ {
		for x := 0; x < min(w, 2*s.N+4); x++ {
			mx, my := x/2-1, y-1
			want := 0
			if mx >= 0 && my >= 0 && mx < s.N && my < s.N && s.At(mx, my) {
				want = 1
			}
			if c := shown[y*w+x]; colour(c) != want {
				return fmt.Sprintf("cell (%d,%d) of module (%d,%d) shows %+v, dark %d is wanted", x, y, mx, my, c, want)
			}
		}
	}
	return ""
}

func event(e, w, h int) termbox.Event {
	switch m := termbox.Modifier(e % mods); {
	case e >= mouseFirst:
		return termbox.Event{Type: termbox.EventMouse, Mod: m, Key: termbox.MouseLeft - termbox.Key((e-mouseFirst)/mods), MouseX: 2, MouseY: 3}
	case e >= chFirst:
		return termbox.Event{Type: termbox.EventKey, Mod: m, Ch: rune(e-chFirst) / mods}
	case e >= keyFirst:
		return termbox.Event{Type: termbox.EventKey, Mod: m, Key: termbox.Key(keys()[(e-keyFirst)/mods])}
	}
	switch e {
	case evKey:
		return termbox.Event{Type: termbox.EventKey, Ch: 'x'}
	case evEsc:
		return termbox.Event{Type: termbox.EventKey, Key: termbox.KeyEsc}
	case evCtrl:
		return termbox.Event{Type: termbox.EventKey, Key: termbox.KeyCtrlSpace}
	case evResize:
		return termbox.Event{Type: termbox.EventResize, Width: w + 3, Height: h + 2}
	case evShrink:
		return termbox.Event{Type: termbox.EventResize, Width: max(1, w/2), Height: max(1, h/2)}
	case evMouse:
		return termbox.Event{Type: termbox.EventMouse, Key: termbox.MouseLeft, MouseX: 1}
	case evError:
		return termbox.Event{Type: termbox.EventError, Err: errors.New("input error")}
	case evInterrupt:
		return termbox.Event{Type: termbox.EventInterrupt}
	case evRaw:
		return termbox.Event{Type: termbox.EventRaw, N: 1, Ch: 'q'}
	}
	return termbox.Event{Type: termbox.EventNone}
}

func tell(st story) eng.Out {
	polls := 0
	for i, a := range st {
		q, sym := code(a.ver, a.ec, a.k)
		w, h := a.w, a.h
		if w == 0 {
			w, h = 2*sym.N+30, sym.N+12
		}
		t := &termbox.VerifTerm{W: w, H: h}
		keyAt := -1
		for j, e := range a.events {
			t.Events = append(t.Events, event(e, w, h))
			if isKey(e) && keyAt < 0 {
				keyAt = j
			}
		}
		if a.fail {
			t.Flushes = []error{errFlush}
		}
		starved, more := make(chan bool), make(chan termbox.Event)
		t.Starved = func() termbox.Event { starved <- true; return <-more }
		termbox.Verif = t
		done := make(chan string, 1)
		var err error
		go func() {
			defer func() {
				if e := recover(); e != nil {
					done <- fmt.Sprintf("panic: %v", e)
				}
			}()
			err = save1(q)
			done <- ""
		}()
		waited := false
		msg := ""
		select {
		case <-starved:
			// still waiting after all events: a key ends it
			waited = true
			select {
			case more <- termbox.Event{Type: termbox.EventKey, Ch: 'y'}:
			case <-time.After(50 * time.Second):
				panic("stub")
			}
			select {
			case msg = <-done:
			case <-starved:
				return eng.V("save %d: a key does not end the wait", i)
			case <-time.After(50 * time.Second):
				return eng.V("save %d: Save does not return", i)
			}
		case msg = <-done:
		case <-time.After(50 * time.Second):
			return eng.V("save %d: Save does not return", i)
		}
		if msg != "" {
			return eng.V("save %d: %s", i, msg)
		}
		log := strings.Join(t.Log, " ")
		closes := strings.Count(log, "close")
		if termbox.IsInit || closes != 1 {
			return eng.V("save %d: terminal closed %d times, still open: %v (calls: %s)", i, closes, termbox.IsInit, log)
		}
		if !strings.HasSuffix(log, "close") {
			return eng.V("save %d: the terminal is used after Close: %s", i, log)
		}
		if a.fail {
			if !errors.Is(err, errFlush) {
				return eng.V("save %d: the flush fails and Save returns %v", i, err)
			}
			continue
		}
		if err != nil {
			return eng.V("save %d: %v", i, err)
		}
		if waited != (keyAt < 0) {
			return eng.V("save %d: after events %v Save was waiting: %v", i, a.events, waited)
		}
		if want := keyAt + 1; keyAt >= 0 && t.Polls != want {
			return eng.V("save %d: %d events were read, the key is number %d", i, t.Polls, want)
		}
		if a.fail == false && strings.Contains(log, "poll") && !strings.Contains(log[:strings.Index(log, "poll")], "flush") {
			return eng.V("save %d: waits before showing anything: %s", i, log)
		}
		if d := picture(sym, t.Shown, t.ShownW); d != "" {
			return eng.V("save %d: %s", i, d)
		}
		polls += t.Polls
	}
	return eng.Out{Key: st.String(), Extra: map[string]int64{"events_read": int64(polls), "saves": int64(len(st))}}
}

func save1(q *qrcode.QRCode) error { return q.Save(terminal.New()) }
