//go:build !verifstub

package tprops

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"

	"verif.local/mc/eng"
	"verif.local/mc/ref"

	"github.com/yeqown/go-qrcode/writer/terminal"
)

func init() { runPty = onPty }

// Helper saves one code to the terminal of the process.
func Helper() {
	if os.Getenv("VERIF_HELPER") != "term" {
		return
	}
	v, _ := strconv.Atoi(os.Args[1])
	ec, _ := strconv.Atoi(os.Args[2])
	q, _ := code(v, ec, 0)
	err := q.Save(terminal.New())
	fmt.Fprintf(os.NewFile(3, "result"), "done %v", err)
	os.Exit(0)
}

// screen interprets the output of termbox.
type screen struct {
	mu         sync.Mutex
	cols, rows int
	ch         []rune
	fg, bg     []int
	x, y       int
	cf, cb     int
	buf        []byte
	alt        int // alternate screen: entered and left
	left       int
	odd        string
}

func newScreen(cols, rows int) *screen {
	s := &screen{cols: cols, rows: rows, cf: -1, cb: -1}
	s.clear()
	return s
}

func (s *screen) clear() {
	n := s.cols * s.rows
	s.ch, s.fg, s.bg = make([]rune, n), make([]int, n), make([]int, n)
	for i := range s.ch {
		s.ch[i], s.fg[i], s.bg[i] = ' ', -1, -1
	}
}

func (s *screen) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.buf = append(s.buf, b...)
	for len(s.buf) > 0 {
		n := s.step(s.buf)
		if n == 0 {
			break
		}
		s.buf = s.buf[n:]
	}
	return len(b), nil
}

// step consumes one character or sequence, 0 if it is not complete.
func (s *screen) step(b []byte) int {
	if b[0] != 0x1b {
		if b[0] < 0x20 {
			return 1
		}
		if !utf8.FullRune(b) {
			return 0
		}
		r, n := utf8.DecodeRune(b)
		if s.x < s.cols && s.y < s.rows {
			i := s.y*s.cols + s.x
			s.ch[i], s.fg[i], s.bg[i] = r, s.cf, s.cb
		}
		s.x++
		return n
	}
	if len(b) < 2 {
		return 0
	}
	switch b[1] {
	case '[':
		e := 2
		for e < len(b) && (b[e] < 0x40 || b[e] > 0x7e) {
			e++
		}
		if e == len(b) {
			return 0
		}
		s.csi(string(b[2:e]), b[e])
		return e + 1
	case '(', ')':
		if len(b) < 3 {
			return 0
		}
		return 3
	}
	return 2
}

func (s *screen) csi(arg string, c byte) {
	var p []int
	for _, f := range strings.Split(arg, ";") {
		n, _ := strconv.Atoi(f)
		p = append(p, n)
	}
	switch c {
	case 'H':
		s.x, s.y = 0, 0
		if len(p) == 2 {
			s.y, s.x = p[0]-1, p[1]-1
		}
	case 'J':
		s.clear()
	case 'm':
		for i := 0; i < len(p); i++ {
			switch {
			case p[i] == 0:
				s.cf, s.cb = -1, -1
			case (p[i] == 38 || p[i] == 48) && i+2 < len(p) && p[i+1] == 5:
				if p[i] == 38 {
					s.cf = p[i+2]
				} else {
					s.cb = p[i+2]
				}
				i += 2
			case p[i] >= 30 && p[i] <= 37:
				s.cf = p[i] - 30
			case p[i] >= 40 && p[i] <= 47:
				s.cb = p[i] - 40
			case p[i] == 7:
				s.cf, s.cb = s.cb, s.cf
			}
		}
	case 'h', 'l':
		if arg == "?1049" || arg == "?47" {
			if c == 'h' {
				s.alt++
			} else {
				s.left++
			}
		}
	}
}

// differs compares the screen with the symbol.
func (s *screen) differs(sym *ref.Symbol) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	for y := 0; y < sym.N+2; y++ {
		for x := 0; x < 2*sym.N+4; x++ {
			mx, my := x/2-1, y-1
			want := 7
			if mx >= 0 && my >= 0 && mx < sym.N && my < sym.N && sym.At(mx, my) {
				want = 0
			}
			i := y*s.cols + x
			got := s.bg[i]
			if s.ch[i] == '█' {
				got = s.fg[i]
			} else if s.ch[i] != ' ' {
				got = -2
			}
			if got != want {
				return fmt.Sprintf("cell (%d,%d) of module (%d,%d) shows %q in colours %d on %d, want %d", x, y, mx, my, s.ch[i], s.fg[i], s.bg[i], want)
			}
		}
	}
	return ""
}

func ioctl(fd uintptr, op uintptr, p unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, op, uintptr(p)); e != 0 {
		return e
	}
	return nil
}

func winsize(f *os.File, cols, rows int) error {
	ws := [4]uint16{uint16(rows), uint16(cols), 0, 0}
	return ioctl(f.Fd(), syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
}

func onPty(p ptyCase) eng.Out {
	_, sym := code(p.ver, p.ec, 0)
	none := func(err error) eng.Out { // no pseudo terminals here: nothing explored
		return eng.Out{Key: "no pseudo terminal", Triv: true, Extra: map[string]int64{"no_pseudo_terminal": 1}}
	}
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return none(err)
	}
	defer master.Close()
	var n, zero uint32
	if err := ioctl(master.Fd(), syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		return none(err)
	}
	if err := ioctl(master.Fd(), syscall.TIOCSPTLCK, unsafe.Pointer(&zero)); err != nil {
		return none(err)
	}
	slave, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return none(err)
	}
	defer slave.Close()
	if err := winsize(slave, p.cols, p.rows); err != nil {
		return none(err)
	}
	exe, err := os.Executable()
	if err != nil {
		return none(err)
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		return none(err)
	}
	defer rr.Close()
	cmd := exec.Command(exe, strconv.Itoa(p.ver), strconv.Itoa(p.ec))
	cmd.Env = append(os.Environ(), "VERIF_HELPER=term", "TERM="+p.term, "TERMINFO=/nonexistent", "GOMAXPROCS=4")
	cmd.Stdin, cmd.Stdout = slave, slave
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.ExtraFiles = []*os.File{rw}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if err := cmd.Start(); err != nil {
		rw.Close()
		return none(err)
	}
	rw.Close()
	sc := newScreen(p.cols, p.rows)
	go io.Copy(sc, master)
	exit := make(chan error, 1)
	go func() { exit <- cmd.Wait() }()
	defer cmd.Process.Kill()
	deadline := time.Now().Add(40 * time.Second)
	diff := "nothing"
	for time.Now().Before(deadline) {
		if diff = sc.differs(sym); diff == "" {
			break
		}
		select {
		case e := <-exit:
			if strings.Contains(stderr.String(), "no such device") || strings.Contains(stderr.String(), "/dev/tty") {
				return none(e)
			}
			return eng.V("the process ends (%v, %s) before the symbol is shown: %s", e, stderr.String(), diff)
		case <-time.After(20 * time.Millisecond):
		}
	}
	if diff != "" {
		return eng.V("%s", diff)
	}
	for _, e := range p.events {
		if e == "resize" {
			winsize(slave, p.cols+4, p.rows+2)
		}
		time.Sleep(50 * time.Millisecond)
	}
	select {
	case e := <-exit:
		return eng.V("the process ends (%v) without a key", e)
	case <-time.After(200 * time.Millisecond):
	}
	if d := sc.differs(sym); d != "" {
		return eng.V("while waiting: %s", d)
	}
	master.Write([]byte(p.key))
	select {
	case e := <-exit:
		if e != nil {
			return eng.V("the process fails: %v %s", e, stderr.String())
		}
	case <-time.After(40 * time.Second):
		return eng.V("a key does not end the process")
	}
	res, _ := io.ReadAll(rr)
	if string(res) != "done <nil>" {
		return eng.V("Save: %s", res)
	}
	for i := 0; i < 100; i++ { // what the process wrote last may still be on its way
		sc.mu.Lock()
		ok := sc.left == sc.alt
		sc.mu.Unlock()
		if ok {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if sc.alt == 0 || sc.left != sc.alt {
		return eng.V("alternate screen entered %d times and left %d times", sc.alt, sc.left)
	}
	return eng.Out{Key: p.String(), Extra: map[string]int64{"traces_on_real_library": 1}}
}
