package props

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"image"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"strings"

	"syscall"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
)

// A scripted writer behaves as told and records its calls.
type scripted struct {
	w, c   int
	events []string
	mats   []qrcode.Matrix
	nested func()
}

type valueErr struct{ s string }

func (e valueErr) Error() string { return e.s }

type sliceErr []int

func (e sliceErr) Error() string { return fmt.Sprint([]int(e)) }

var (
	errPlain   = errors.New("plain")
	errWrapped = fmt.Errorf("outer: %w", errPlain)
	errPtr     = &os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}
	errNested  = errors.New("nested")
	writeErrs  = []error{nil, errPlain, errWrapped, errPtr, io.EOF, valueErr{"value"}, sliceErr{1, 2}, os.ErrClosed, nil, nil, nil}
	writeNames = []string{"succeeds", "fails", "fails with a wrapped error", "fails with a path error", "fails with EOF", "fails with an error value", "fails with an incomparable error", "fails with ErrClosed", "panics", "panics with an error", "saves the code to another writer"}
	closeErrs  = []error{nil, errPlain, os.ErrClosed, nil}
	closeNames = []string{"succeeds", "fails", "fails with ErrClosed", "panics"}
)

func (s *scripted) Write(m qrcode.Matrix) error {
	s.events = append(s.events, "write")
	s.mats = append(s.mats, m)
	switch s.w {
	case 8:
		panic("write")
	case 9:
		panic(errPlain)
	case 10:
		s.nested()
	}
	return writeErrs[s.w]
}

func (s *scripted) Close() error {
	s.events = append(s.events, "close")
	if s.c == 3 {
		panic("close")
	}
	return closeErrs[s.c]
}

// saveCatch saves and catches panics.
func saveCatch(q *qrcode.QRCode, w qrcode.Writer) (err error, pan any) {
	defer func() {
		if r := recover(); r != nil {
			pan = r
		}
	}()
	return q.Save(w), nil
}

func sameErr(a, b error) bool {
	if x, ok := b.(sliceErr); ok {
		y, ok := a.(sliceErr)
		return ok && len(x) == len(y) && &x[0] == &y[0]
	}
	return a == b
}

// lifeCase saves a code to a sequence of scripted writers; -1 stands for nil.
func lifeCase(seq []int) eng.Out {
	code := codeFor(1, 1, 0)
	q := code.q
	for step, k := range seq {
		if k < 0 {
			if err, pan := saveCatch(q, nil); err != nil || pan != nil {
				return eng.V("step %d: saving to a nil writer: error %v, panic %v", step, err, pan)
			}
			continue
		}
		s := &scripted{w: k / 4, c: k % 4}
		var inner *scripted
		var innerErr error
		if s.w == 10 {
			inner = &scripted{w: 1}
			s.nested = func() { innerErr = q.Save(inner) }
		}
		err, pan := saveCatch(q, s)
		if got := strings.Join(s.events, " "); got != "write close" {
			return eng.V("step %d: Write %s, Close %s: calls were %q, want one write and then one close", step, writeNames[s.w], closeNames[s.c], got)
		}
		if inner != nil {
			if got := strings.Join(inner.events, " "); got != "write close" || !sameErr(innerErr, errPlain) {
				return eng.V("step %d: save within a save: calls were %q, error %v", step, got, innerErr)
			}
		}
		switch {
		case s.w == 8 || s.w == 9:
			if pan == nil && err == nil {
				return eng.V("step %d: Write %s and Save reports success", step, writeNames[s.w])
			}
		case s.c == 3:
			// a panicking Close is the writer's own affair
		case pan != nil:
			return eng.V("step %d: Save panics: %v", step, pan)
		case !sameErr(err, writeErrs[s.w]):
			return eng.V("step %d: Write %s, Close %s: Save returns %v, want %v", step, writeNames[s.w], closeNames[s.c], err, writeErrs[s.w])
		}
		got, e := qr.Sym(s.mats[0])
		if e != nil || !bytes.Equal(bits(got), bits(code.sym)) {
			return eng.V("step %d: the writer got another symbol", step)
		}
	}
	return eng.K("%v", seq)
}

func bits(s *ref.Symbol) []byte {
	b := make([]byte, len(s.B))
	for i, v := range s.B {
		b[i] = byte(b2i(v))
	}
	return b
}

// A faulty stream accepts a number of bytes, or of calls, and then fails.
type faulty struct {
	bytes.Buffer
	left   int // bytes accepted before the fault; -1: no limit
	call   int // the call that fails, once; -1: none
	calls  int
	failed bool
	sticky bool
	err    error // what a failing call returns; nil: errStream
	closes int
	closeE error
}

var errStream = errors.New("stream fault")

// streamErrs are errors that streams fail with.
var streamErrs = []error{errStream, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrClosed, os.ErrDeadlineExceeded, context.Canceled, syscall.EPIPE, syscall.EINTR, syscall.EAGAIN, syscall.ENOSPC,
	&os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}, fmt.Errorf("again: %w", io.EOF), io.ErrNoProgress, bufio.ErrBufferFull, errors.ErrUnsupported}

func (f *faulty) fault() error {
	f.failed = true
	if f.err != nil {
		return f.err
	}
	return errStream
}

func (f *faulty) Write(b []byte) (int, error) {
	k := f.calls
	f.calls++
	if k == f.call || f.call >= 0 && f.sticky && k > f.call {
		return 0, f.fault()
	}
	if f.left >= 0 && len(b) > f.left {
		n := f.left
		f.Buffer.Write(b[:n])
		f.left = 0
		return n, f.fault()
	}
	if f.left >= 0 {
		f.left -= len(b)
	}
	return f.Buffer.Write(b)
}
func (f *faulty) Close() error { f.closes++; return f.closeE }

type streamWriter struct {
	name string
	make func(io.WriteCloser) qrcode.Writer
}

type errEnc struct{}

func (errEnc) Encode(w io.Writer, m image.Image) error {
	if _, err := w.Write([]byte("begin")); err != nil {
		return err
	}
	return errPlain
}

type ownEnc struct{}

func (ownEnc) Encode(w io.Writer, m image.Image) error {
	for i := 0; i < 40; i++ {
		if _, err := w.Write([]byte{byte(i), 1, 2}); err != nil {
			return err
		}
	}
	return nil
}

var streamWriters = []streamWriter{
	{"standard JPEG", func(w io.WriteCloser) qrcode.Writer {
		return standard.NewWithWriter(w, standard.WithQRWidth(2), standard.WithBorderWidth(2))
	}},
	{"standard PNG", func(w io.WriteCloser) qrcode.Writer {
		return standard.NewWithWriter(w, standard.WithQRWidth(2), standard.WithBorderWidth(2), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	}},
	{"standard with an encoder of its own", func(w io.WriteCloser) qrcode.Writer {
		return standard.NewWithWriter(w, standard.WithQRWidth(1), standard.WithCustomImageEncoder(ownEnc{}))
	}},
	{"compressed", func(w io.WriteCloser) qrcode.Writer {
		return compressed.NewWithWriter(w, &compressed.Option{Padding: 1, BlockSize: 1})
	}},
}

type streamCase struct {
	sw     int
	left   int
	call   int
	sticky bool
	closeE bool
	ver    int
	e      int // which error
}

func (c streamCase) String() string {
	s := fmt.Sprintf("%s, version %d, stream ", streamWriters[c.sw].name, c.ver)
	switch {
	case c.left >= 0:
		s += fmt.Sprintf("fails after %d bytes", c.left)
	case c.call >= 0 && c.sticky:
		s += fmt.Sprintf("fails from write call %d on", c.call)
	case c.call >= 0:
		s += fmt.Sprintf("fails at write call %d only", c.call)
	default:
		s += "never fails"
	}
	if c.closeE {
		s += ", closing it fails"
	}
	if c.e > 0 {
		s += fmt.Sprintf(", error %v", streamErrs[c.e])
	}
	return s
}

func (c streamCase) run() eng.Out {
	code := codeFor(c.ver, 0, 0)
	full := &faulty{left: -1, call: -1}
	if err := code.q.Save(streamWriters[c.sw].make(full)); err != nil {
		return eng.V("with a good stream: %v", err)
	}
	f := &faulty{left: c.left, call: c.call, sticky: c.sticky, err: streamErrs[c.e]}
	if c.closeE {
		f.closeE = errPlain
	}
	err, pan := saveCatch(code.q, streamWriters[c.sw].make(f))
	if pan != nil {
		return eng.V("panic: %v", pan)
	}
	if f.failed && err == nil {
		return eng.V("the stream failed (%d of %d bytes written) and Save reports success", f.Len(), full.Len())
	}
	if !f.failed && err != nil {
		return eng.V("the stream did not fail and Save returns %v", err)
	}
	if err == nil && !bytes.Equal(f.Bytes(), full.Bytes()) {
		return eng.V("success with %d of %d bytes", f.Len(), full.Len())
	}
	if f.failed && c.sticky && !bytes.HasPrefix(full.Bytes(), f.Bytes()) || c.left >= 0 && !bytes.HasPrefix(full.Bytes(), f.Bytes()) {
		return eng.V("the bytes before the fault are no prefix of the whole output")
	}
	if f.closes != 1 {
		return eng.V("the stream was closed %d times", f.closes)
	}
	return eng.Out{Key: fmt.Sprintf("%v %v", c, err), Extra: map[string]int64{"faults_reported": b2i(f.failed)}}
}

// diskCase lets the real file fail after a number of bytes.
type diskCase struct {
	kind  int // 0 text file, 1 compressed.New, 2 standard.New JPEG, 3 standard.New PNG
	limit int // file size limit; -1 none
	where int // 0 file in a scratch directory, 1 /dev/full, 2 closed file, 3 file opened for reading, 4 pipe and 5 socket nobody reads, 6 end of a pipe that is read, 7 directory
	ver   int
}

var diskNames = []string{"text", "compressed", "standard JPEG", "standard PNG"}

func (c diskCase) String() string {
	w := []string{"a file", "a full device", "a file closed before", "a file opened for reading", "a pipe that nobody reads", "a socket that nobody reads", "the reading end of a pipe", "a directory"}[c.where]
	if c.limit >= 0 {
		w += fmt.Sprintf(" that can hold %d bytes", c.limit)
	}
	return fmt.Sprintf("%s writer, version %d, to %s", diskNames[c.kind], c.ver, w)
}

func openFDs() int {
	l, _ := os.ReadDir("/proc/self/fd")
	return len(l)
}

// saveTo saves to a new file and returns what Save returns and what is in the file then.
func (c diskCase) saveTo(name string, limit int) (b []byte, err error, what string) {
	q := codeFor(c.ver, 0, 0).q
	var w qrcode.Writer
	var f *os.File
	before := openFDs()
	switch c.kind {
	case 0:
		flag := os.O_CREATE | os.O_WRONLY
		if c.where == 3 {
			os.WriteFile(name, nil, 0o644)
			flag = os.O_RDONLY
		}
		switch c.where {
		case 4, 6:
			var r *os.File
			r, f, err = os.Pipe()
			if c.where == 6 {
				r, f = f, r
			}
			if err == nil {
				r.Close()
			}
		case 5:
			var fds [2]int
			fds, err = syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
			if err == nil {
				syscall.Close(fds[1])
				f = os.NewFile(uintptr(fds[0]), "socket")
			}
		case 7:
			f, err = os.Open(filepath.Dir(name))
		default:
			f, err = os.OpenFile(name, flag, 0o644)
		}
		if err != nil {
			return nil, err, "open"
		}
		defer f.Close()
		if c.where == 2 {
			f.Close()
		}
		w = file.New(f)
	case 1:
		w, err = compressed.New(name, &compressed.Option{Padding: 1, BlockSize: 1})
	case 2:
		w, err = standard.New(name, standard.WithQRWidth(1), standard.WithBorderWidth(1))
	case 3:
		w, err = standard.New(name, standard.WithQRWidth(1), standard.WithBorderWidth(1), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	}
	if err != nil {
		return nil, err, "new"
	}
	if limit >= 0 {
		signal.Ignore(syscall.SIGXFSZ)
		var old syscall.Rlimit
		if e := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); e != nil {
			panic(e)
		}
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: old.Max})
		var pan any
		err, pan = saveCatch(q, w)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
		if pan != nil {
			what = fmt.Sprint("panic: ", pan)
		}
	} else {
		err = q.Save(w)
	}
	if c.kind == 0 {
		if c.where < 2 {
			if _, e := f.Seek(0, io.SeekCurrent); e != nil && c.where == 0 {
				what = "the text writer closed the file: " + e.Error()
			}
		}
		f.Close()
	}
	if n := openFDs(); n != before {
		what = fmt.Sprintf("%d files are open after saving, %d before", n, before)
	}
	if c.where != 1 {
		b, _ = os.ReadFile(name)
	}
	return
}

func (c diskCase) run() eng.Out {
	dir, done := tempDir()
	defer done()
	cc := c
	cc.where = 0
	whole, err, what := cc.saveTo(filepath.Join(dir, "whole"), -1)
	if err != nil || what != "" || len(whole) == 0 {
		return eng.V("to a good file: %v %s, %d bytes", err, what, len(whole))
	}
	name := filepath.Join(dir, "x")
	if c.where == 1 {
		os.Symlink("/dev/full", name)
	}
	b, err, what := c.saveTo(name, c.limit)
	if what != "" && err == nil {
		return eng.V("%s", what)
	}
	fails := c.where > 0 || c.limit >= 0 && c.limit < len(whole)
	if fails && err == nil {
		return eng.V("%d of %d bytes could be written and Save reports success", len(b), len(whole))
	}
	if !fails && err != nil {
		return eng.V("Save returns %v", err)
	}
	if err == nil && !bytes.Equal(b, whole) {
		return eng.V("success with %d of %d bytes", len(b), len(whole))
	}
	if what != "" && what != "new" && what != "open" {
		return eng.V("%s", what)
	}
	return eng.K("%v %v", c, err != nil)
}

// steps are at most m+m of the numbers 0..n-1, first and last ones included.
func steps(n, m int) (out []int) {
	for k := 0; k < n; k++ {
		if k < m/2 || k >= n-m/2 || k%(n/m+1) == 0 {
			out = append(out, k)
		}
	}
	return
}

func wholeSize(c diskCase) int {
	dir, done := tempDir()
	defer done()
	b, err, _ := c.saveTo(filepath.Join(dir, "w"), -1)
	if err != nil {
		return 600 // the cases will report it
	}
	return len(b)
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C12", Level: "fault_enumeration",
		Rule: "one sequence of saves with scripted writers, or one save with a stream or file that fails at one point, per case; calls, errors and written bytes are compared with the expected ones. Distinct by script or fault.",
		Assumptions: []string{
			"a stream that fails returns an error from Write (one that writes less and returns no error violates io.Writer)",
			"Close errors of the writer are logged by design and not returned",
		},
		Bounds: map[string]string{
			"quick":    "all sequences of up to 2 saves over 44 scripted writers and nil; faults at every byte and at every write call (once or for good) of 4 stream writers for versions 1 and 2, at up to 64 of these points with 17 different errors; a file size limit at every byte for 4 file writers; full device, closed file, file opened for reading, pipes and sockets without a reader, a directory",
			"thorough": "sequences of up to 3 saves; versions 1-4 and 7",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			// what Save logs about failing closes does not matter here
			max := 2
			vers := []int{1, 2}
			if th {
				max = 3
				vers = []int{1, 2, 3, 4, 7}
			}
			nk := len(writeNames)*4 + 1
			seq := func(i int64) []int {
				w := word(i, nk)
				for j := range w {
					w[j]--
				}
				return w
			}
			var ss []streamCase
			var ds []diskCase
			for _, v := range vers {
				for sw := range streamWriters {
					full := &faulty{left: -1, call: -1}
					codeFor(v, 0, 0).q.Save(streamWriters[sw].make(full))
					for k := 0; k <= full.Len()+1; k++ {
						ss = append(ss, streamCase{sw: sw, left: k, call: -1, ver: v})
					}
					for k := -1; k <= full.calls; k++ {
						for s := 0; s < 2; s++ {
							ss = append(ss, streamCase{sw: sw, left: -1, call: k, sticky: s == 1, ver: v, closeE: k%2 == 0})
						}
					}
					for e := range streamErrs {
						for _, k := range steps(full.calls, 12) {
							ss = append(ss, streamCase{sw: sw, left: -1, call: k, ver: v, e: e}, streamCase{sw: sw, left: -1, call: k, ver: v, e: e, sticky: true, closeE: true})
						}
						for _, k := range steps(full.Len(), 40) {
							ss = append(ss, streamCase{sw: sw, left: k, call: -1, ver: v, e: e})
						}
					}
				}
				for k := range diskNames {
					c := diskCase{kind: k, ver: v, limit: -1}
					n := wholeSize(c)
					for l := -1; l <= n+1; l++ {
						c.limit = l
						ds = append(ds, c)
					}
					c.limit = -1
					for c.where = 1; c.where < 8; c.where++ {
						if c.where == 1 || k == 0 {
							ds = append(ds, c)
						}
					}
				}
			}
			return []*eng.Space{
				{Name: "lifecycles", N: wordCount(nk, max), Run: func(i int64) eng.Out { return lifeCase(seq(i)) }, Desc: func(i int64) string {
					var n []string
					for _, k := range seq(i) {
						if k < 0 {
							n = append(n, "nil writer")
						} else {
							n = append(n, fmt.Sprintf("Write %s, Close %s", writeNames[k/4], closeNames[k%4]))
						}
					}
					return strings.Join(n, "; ")
				}},
				list("streams", ss, streamCase.run, streamCase.String),
				list("files", ds, diskCase.run, diskCase.String),
				list("nothing to write to", []string{"zero standard writer", "nil text file", "failing encoder"}, func(n string) eng.Out {
					q := codeFor(1, 0, 0).q
					var err error
					var pan any
					switch n {
					case "zero standard writer":
						err, pan = saveCatch(q, standard.Writer{})
					case "nil text file":
						err, pan = saveCatch(q, file.New(nil))
					default:
						f := &faulty{left: -1, call: -1}
						err, pan = saveCatch(q, standard.NewWithWriter(f, standard.WithCustomImageEncoder(errEnc{})))
						if f.closes != 1 {
							return eng.V("stream closed %d times", f.closes)
						}
					}
					if err == nil || pan != nil {
						return eng.V("error %v, panic %v", err, pan)
					}
					return eng.K("%s %v", n, err)
				}, func(n string) string { return n }),
			}
		},
	})
}
