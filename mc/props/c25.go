package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

// dbgJob is what the process of one case does.
type dbgJob struct {
	Ops   []int
	API   int      // SetDebugMode is called before operation API; -1: never
	NoFds bool     // no file can be opened
	Texts []string `json:",omitempty"`
}

type dbgRes struct {
	Res  []string
	Logs []int // log lines written during each operation
}

// dbgMany is the first operation that encodes many texts.
const dbgMany = 18

var dbgOps = sync.OnceValue(func() (out []histOp) {
	add := func(o histOp) { out = append(out, o) }
	add(opEncode("digits", "0123456789", qr.EC[ref.L]))
	add(opEncode("alphanumeric", "HELLO WORLD", qr.EC[ref.Q]))
	add(opEncode("bytes", "hello, world", qr.EC[ref.M]))
	add(opEncode("kanji", "漢字", qr.EC[ref.H]))
	add(opEncode("version 2", "version 2", qr.EC[ref.H], qr.Ver(2)))
	add(opEncode("version 3 with two blocks", "ABCDEFGHIJ", qr.EC[ref.H], qr.Ver(3)))
	add(opEncode("version 5 with blocks of two sizes", "0123456789", qr.EC[ref.Q], qr.Ver(5)))
	add(opEncode("version 7", "version 7", qr.EC[ref.M], qr.Ver(7)))
	add(opEncode("not numeric", "12a", qr.Mode[ref.Numeric]))
	add(opEncode("too long", strings.Repeat("x", 5000)))
	add(opEncode("no text", ""))
	add(opBytes("bytes", []byte("caller's bytes"), qr.EC[ref.L]))
	add(histOp{"save PNG", func(h *history) string {
		q, err := qrcode.NewWith("png", qr.EC[ref.L])
		if err != nil {
			return "error: " + err.Error()
		}
		var s sink
		if err := q.Save(standard.NewWithWriter(&s, pngOut(imgSets()[len(imgSets())-1].mk())...)); err != nil {
			return "save error: " + err.Error()
		}
		return fmt.Sprintf("%d %x", s.Len(), hashBytes(s.Bytes()))
	}})
	add(opEncode("version 14", "version 14", qr.EC[ref.Q], qr.Ver(14)))
	add(opEncode("version 27", "version 27", qr.EC[ref.L], qr.Ver(27)))
	add(opEncode("version 40", "version 40", qr.EC[ref.H], qr.Ver(40)))
	add(histOp{"every version and level", func(h *history) string {
		s := ""
		for v := 1; v <= 40; v++ {
			for ec := 0; ec < 4; ec++ {
				m, t := textFor(v, ec, v+ec)
				y, err := qr.Encode(t, qr.Ver(v), qr.EC[ec], qr.Mode[m])
				if err != nil {
					return "error: " + err.Error()
				}
				s += fmt.Sprintf("%x ", hashBytes(bits(y)))
			}
		}
		return s
	}})
	add(histOp{"options that are ignored", func(h *history) string {
		s := ""
		for i, o := range []qrcode.EncodeOption{qrcode.WithVersion(0), qrcode.WithVersion(41), qrcode.WithVersion(-3), qrcode.WithMinimumVersion(0), qrcode.WithMinimumVersion(99), qrcode.WithMinimumVersion(-1),
			qrcode.WithErrorCorrectionLevel(0), qrcode.WithErrorCorrectionLevel(77), qrcode.WithErrorCorrectionLevel(-2), qrcode.WithEncodingMode(qrcode.EncModeAuto), qrcode.WithEncodingMode(qrcode.EncModeNone), qrcode.WithEncodingMode(4711), qrcode.WithMinimumVersion(1)} {
			y, err := qr.Encode("A1", o)
			if err != nil {
				s += fmt.Sprintf("%d: error ", i)
				continue
			}
			s += fmt.Sprintf("%x ", hashBytes(bits(y)))
		}
		return s
	}})
	return
})

func init() {
	helpers["debug"] = func(args []string) any {
		var j dbgJob
		if err := json.Unmarshal([]byte(args[0]), &j); err != nil {
			panic(err)
		}
		var lb bytes.Buffer
		log.SetOutput(&lb)
		if j.NoFds {
			time.Sleep(time.Microsecond) // the runtime opens its poller with the first timer, and cannot later
			var l syscall.Rlimit
			syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l)
			l.Cur = 3 // 0, 1, 2 are taken, and so is 3
			if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &l); err != nil {
				panic(err)
			}
		}
		var r dbgRes
		var h history
		for i, k := range j.Ops {
			if i == j.API {
				qrcode.SetDebugMode()
			}
			lb.Reset()
			s := func() (s string) {
				defer func() {
					if e := recover(); e != nil {
						s = fmt.Sprintf("panic: %v", e)
					}
				}()
				return dbgOp(k, j.Texts).f(&h)
			}()
			r.Res = append(r.Res, s)
			r.Logs = append(r.Logs, strings.Count(lb.String(), "\n"))
		}
		return r
	}
}

var (
	dbgMu    sync.Mutex
	dbgFresh = map[int]string{}
)

func dbgWant(k int) (string, error) {
	dbgMu.Lock()
	defer dbgMu.Unlock()
	if s, ok := dbgFresh[k]; ok {
		return s, nil
	}
	dir, done := tempDir()
	defer done()
	j, _ := json.Marshal(dbgJob{Ops: []int{k}, API: -1, Texts: dbgChunk(k)})
	var r dbgRes
	if _, err := runHelper("debug", dir, []string{"QRCODE_DEBUG="}, &r, string(j)); err != nil {
		return "", err
	}
	dbgFresh[k] = r.Res[0]
	return r.Res[0], nil
}

type dbgCase struct {
	env   string // "-": not set
	api   int
	draft int
	ops   []int
}

var draftKinds = []string{"no draft directory", "an empty draft directory", "a file named draft", "a draft directory with directories in the pictures' places", "a draft directory on a full device", "a draft directory with longer files", "no file descriptors", "a draft link that leads nowhere"}

var dbgEnvs = []string{"-", "1", "true", "TRUE", "enabled", "ENABLED", "", "0", "false", "True", "yes", "2", " 1", "1 ", "disabled", "Enabled", "on"}

// dbgOp is an operation; those from dbgMany on encode texts.
func dbgOp(k int, texts []string) histOp {
	if k < dbgMany {
		return dbgOps()[k]
	}
	return histOp{fmt.Sprintf("encode each of %q", texts), func(h *history) string {
		var l []string
		for _, t := range texts {
			s, err := qr.Encode(t, qr.EC[ref.L])
			if err != nil {
				return fmt.Sprintf("error for %q: %v", t, err)
			}
			l = append(l, fmt.Sprintf("%s:%x", t, hashBytes(bits(s))))
		}
		return strings.Join(l, " ")
	}}
}

func dbgChunk(k int) []string {
	if k < dbgMany {
		return nil
	}
	return dbgTexts()[(k-dbgMany)*dbgPer : (k-dbgMany+1)*dbgPer]
}

// dbgTexts are the texts of an operation that encodes many.
const dbgPer = 25

var dbgTexts = sync.OnceValue(func() (out []string) {
	for i := 0; i < 10000 && len(out) < 400; i++ {
		t := fmt.Sprint(i)
		low, n := 1<<30, 0
		for m := 0; m < 8; m++ {
			s, err := ref.Encode(t, ref.Numeric, 1, ref.L, m)
			if err != nil {
				panic(err)
			}
			switch p, _ := ref.PenaltyRange(s); {
			case p < low:
				low, n = p, 1
			case p == low:
				n++
			}
		}
		if n > 1 {
			out = append(out, t)
		}
	}
	for i := 0; len(out) < 600; i++ {
		out = append(out, strings.Repeat(string(rune('A'+i%26)), 1+i%17)+fmt.Sprint(i*i))
	}
	return
})

func (c dbgCase) String() string {
	var n []string
	for i, k := range c.ops {
		if i == c.api {
			n = append(n, "SetDebugMode")
		}
		n = append(n, dbgOp(k, dbgChunk(k)).name)
	}
	e := "QRCODE_DEBUG not set"
	if c.env != "-" {
		e = fmt.Sprintf("QRCODE_DEBUG=%q", c.env)
	}
	return fmt.Sprintf("%s, %s: %s", e, draftKinds[c.draft], strings.Join(n, "; "))
}

func (c dbgCase) on(i int) bool {
	switch c.env {
	case "1", "true", "TRUE", "enabled", "ENABLED":
		return true
	}
	return c.api >= 0 && i >= c.api
}

func listing(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, f os.FileInfo, err error) error {
		if err == nil {
			l = append(l, fmt.Sprintf("%s %v %d", strings.TrimPrefix(p, dir), f.Mode(), f.Size()))
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func (c dbgCase) run() eng.Out {
	dir, done := tempDir()
	defer done()
	d := filepath.Join(dir, "draft")
	var names []string
	for _, f := range []string{"mats_%d.jpeg", "mask_%d.jpeg", "mats_mask_%d.jpeg", "qrcode_mask_%d.jpeg"} {
		for i := 0; i < 8; i++ {
			names = append(names, filepath.Join(d, fmt.Sprintf(f, i)))
		}
	}
	switch c.draft {
	case 1:
		os.Mkdir(d, 0o755)
	case 2:
		os.WriteFile(d, []byte("draft"), 0o644)
	case 3:
		for _, n := range names {
			os.MkdirAll(n, 0o755)
		}
	case 4:
		os.Mkdir(d, 0o755)
		for _, n := range names {
			os.Symlink("/dev/full", n)
		}
	case 5:
		os.Mkdir(d, 0o755)
		for _, n := range names {
			os.WriteFile(n, make([]byte, 200000), 0o644)
		}
	case 7:
		os.Symlink(filepath.Join(dir, "nowhere"), d)
	}
	before := listing(dir)
	j, _ := json.Marshal(dbgJob{c.ops, c.api, c.draft == 6, dbgChunk(c.ops[len(c.ops)-1])})
	env := []string{"QRCODE_DEBUG=" + c.env}
	if c.env == "-" {
		os.Unsetenv("QRCODE_DEBUG")
		env = nil
	}
	var r dbgRes
	h, err := runHelper("debug", dir, env, &r, string(j))
	if err != nil {
		return eng.V("%v", err)
	}
	any := false
	for i, k := range c.ops {
		want, err := dbgWant(k)
		if err != nil {
			return eng.V("%v", err)
		}
		if r.Res[i] != want {
			return eng.V("%s gives %q, without debugging %q", dbgOp(k, dbgChunk(k)).name, r.Res[i], want)
		}
		failed := strings.HasPrefix(want, "error")
		any = any || c.on(i)
		if !c.on(i) && !failed && r.Logs[i] > 0 {
			return eng.V("%s logs %d lines without debugging", dbgOp(k, dbgChunk(k)).name, r.Logs[i])
		}
		if c.on(i) && !failed && r.Logs[i] == 0 {
			return eng.V("%s logs nothing with debugging", dbgOp(k, dbgChunk(k)).name)
		}
	}
	if !any {
		if after := listing(dir); after != before {
			return eng.V("files without debugging: %s; before: %s", after, before)
		}
		if h.stdout.Len()+h.stderr.Len() > 0 {
			return eng.V("printed without debugging: %s %s", h.stdout.String(), h.stderr.String())
		}
	}
	return eng.Out{Key: c.String(), Extra: map[string]int64{"operations": int64(len(c.ops)), "log_lines": int64(sum(r.Logs))}}
}

func sum(l []int) (n int) {
	for _, v := range l {
		n += v
	}
	return
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C25", Level: "exploration",
		Rule: "one process per case: an environment value, the operation before which SetDebugMode is called (or none), a state of the working directory, and a sequence of operations; every result is compared with that of the operation alone without debugging. Distinct by case.",
		Assumptions: []string{
			"debugging is on with the documented values of QRCODE_DEBUG or after SetDebugMode, which is not called while an encode runs",
		},
		Bounds: map[string]string{
			"quick":    "17 environment values x 4 moments of SetDebugMode x 2 states of the draft directory (8 for 4 of the values) x 6 sequences; 3 ways of switching x 8 states x all pairs of 13 operations; every version and level and ignored options without debugging; 600 texts (among them all up to 9999 whose lowest penalty is shared by several masks, up to 400) in 3 states and 2 ways of switching",
			"thorough": "all sequences of 3 of 13 operations; versions 14, 27 and 40 in every state",
		},
		Spaces: func(tier string) []*eng.Space {
			var sw, deep []dbgCase
			for _, e := range dbgEnvs {
				for api := -1; api < 3; api++ {
					for d := range draftKinds {
						if d > 1 && e != "-" && e != "1" && e != "0" && e != "" {
							continue // what counts as on does not depend on the directory
						}
						for _, s := range [][]int{{0, 2, 4}, {8, 0, 1}, {9, 3, 11}, {12, 2, 0}, {7, 10, 5}, {6, 8, 6}} {
							sw = append(sw, dbgCase{e, api, d, s})
						}
					}
				}
			}
			ways := []struct {
				env string
				api int
			}{{"-", -1}, {"1", -1}, {"-", 0}, {"0", 1}}
			const n = 13 // operations that are cheap with debugging
			l := 2
			if tier == "thorough" {
				l = 3
			}
			for _, w := range ways {
				for d := range draftKinds {
					if tier != "thorough" && w.env == "-" && w.api < 0 && d > 1 {
						continue
					}
					for i := int64(0); ; i++ {
						s := word(i, n)
						if len(s) > l {
							break
						}
						if len(s) == l {
							deep = append(deep, dbgCase{w.env, w.api, d, s})
						}
					}
					if l == 3 || d < 2 {
						for k := n; k < dbgMany; k++ {
							if l == 3 || k == n || k >= 16 && w.env == "-" && w.api < 0 || k == 17 {
								deep = append(deep, dbgCase{w.env, w.api, d, []int{k, k}})
							}
						}
					}
				}
			}
			var many []dbgCase
			for k := dbgMany; (k-dbgMany)*dbgPer < len(dbgTexts()); k++ {
				for _, w := range ways[1:3] {
					for d := 0; d < 6; d += 2 {
						if d > 0 && tier != "thorough" && k%8 != 0 {
							continue
						}
						many = append(many, dbgCase{w.env, w.api, d, []int{k}})
					}
				}
			}
			return outside([]*eng.Space{
				list("many texts", many, dbgCase.run, dbgCase.String),
				list("switches", sw, dbgCase.run, dbgCase.String),
				list("operations", deep, dbgCase.run, dbgCase.String),
			})
		},
	})
}
