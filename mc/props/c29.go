package props

import (
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verif.local/mc/eng"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	textw "github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
)

// A history of file operations, run in a scratch directory and on a model of it at the same time.

type fileOp struct {
	kind string // open, save, close, remove, put, text, cd
	slot int
	wr   int // kind of writer
	path string
	code int
}

var fileWriters = []string{"PNG", "JPEG", "compressed"}

func (o fileOp) String() string {
	switch o.kind {
	case "open":
		return fmt.Sprintf("w%d = %s writer for %q", o.slot, fileWriters[o.wr], o.path)
	case "save":
		return fmt.Sprintf("save code %d to w%d", o.code, o.slot)
	case "close":
		return fmt.Sprintf("close w%d", o.slot)
	case "text":
		return fmt.Sprintf("append code %d as text to %q", o.code, o.path)
	}
	return o.kind + " " + o.path
}

// inode is the contents of a file.
type inode struct {
	b    []byte
	open int
}

type fileModel struct {
	files map[string]*inode // by path below the root; "link" names "a"
	cwd   string
	slots [2]struct {
		used, done bool // done: closed by Save or Close
		wr         int
		f          *inode
	}
}

func (m *fileModel) abs(p string) string { return path.Join(m.cwd, p) }

// resolve says which file a path names, "" if it cannot be created.
func (m *fileModel) resolve(p string) string {
	p = m.abs(p)
	switch {
	case p == "link":
		return "a"
	case p == "sub", strings.HasPrefix(p, "none/"), strings.HasPrefix(p, "sub/none/"), strings.HasPrefix(p, "sub/sub/"):
		return ""
	}
	return p
}

func (m *fileModel) listing() string {
	var l []string
	for n, f := range m.files {
		l = append(l, fmt.Sprintf("%s: %d bytes %x", n, len(f.b), hashBytes(f.b)))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func realListing(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, f os.FileInfo, err error) error {
		n, _ := filepath.Rel(dir, p)
		if err != nil || f.IsDir() || n == "link" && f.Mode()&os.ModeSymlink != 0 {
			if f != nil && f.IsDir() && n != "." && n != "sub" {
				l = append(l, "directory "+n)
			}
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			l = append(l, err.Error())
			return nil
		}
		l = append(l, fmt.Sprintf("%s: %d bytes %x", n, len(b), hashBytes(b)))
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// enabled are the operations possible in a state.
func (m *fileModel) enabled(full bool) (ops []fileOp) {
	paths := []string{"a", "sub/b", "link", "none/c", "sub"}
	for s := range m.slots {
		if s == 1 && !m.slots[0].used {
			break // the slots are interchangeable
		}
		if !m.slots[s].used || m.slots[s].done {
			for w := range fileWriters {
				for _, p := range paths {
					if t := m.resolve(p); t != "" && m.files[t] != nil && m.files[t].open > 0 {
						continue // two writers of one file: nothing is promised
					}
					ops = append(ops, fileOp{kind: "open", slot: s, wr: w, path: p})
				}
			}
		}
		if m.slots[s].used {
			ops = append(ops, fileOp{kind: "save", slot: s, code: 0}, fileOp{kind: "save", slot: s, code: 1}, fileOp{kind: "close", slot: s})
		}
	}
	if m.files["a"] != nil {
		ops = append(ops, fileOp{kind: "remove", path: "a"})
		if m.files["a"].open == 0 {
			ops = append(ops, fileOp{kind: "text", path: "a", code: 1})
		}
	}
	if m.files["a"] == nil || m.files["a"].open == 0 {
		ops = append(ops, fileOp{kind: "put", path: "a"})
	}
	if full {
		ops = append(ops, fileOp{kind: "cd"})
	}
	return
}

var fileBytes sync.Map

func fileCode(k int) *qrcode.QRCode { return codeFor([]int{5, 1}[k], k, k).q }

// fileWant is what a stream gets.
func fileWant(wr, code int) []byte {
	key := [2]int{wr, code}
	if b, ok := fileBytes.Load(key); ok {
		return b.([]byte)
	}
	var s sink
	if err := fileCode(code).Save(fileWriter(wr, &s, "")); err != nil {
		panic(err)
	}
	b := append([]byte(nil), s.Bytes()...)
	fileBytes.Store(key, b)
	return b
}

func fileWriter(wr int, s io.WriteCloser, name string) qrcode.Writer {
	w, err := fileOpen(wr, s, name)
	if err != nil {
		panic(err)
	}
	return w
}

func fileOpen(wr int, s io.WriteCloser, name string) (qrcode.Writer, error) {
	if wr == 2 {
		o := &compressed.Option{Padding: 2, BlockSize: 2}
		if s != nil {
			return compressed.NewWithWriter(s, o), nil
		}
		return compressed.New(name, o)
	}
	f := standard.PNG_FORMAT
	if wr == 1 {
		f = standard.JPEG_FORMAT
	}
	o := []standard.ImageOption{standard.WithQRWidth(2), standard.WithBorderWidth(3), standard.WithBuiltinImageEncoder(f)}
	if s != nil {
		return standard.NewWithWriter(s, o...), nil
	}
	w, err := standard.New(name, o...)
	if err != nil {
		if w != nil {
			return nil, fmt.Errorf("an error and a writer")
		}
		return nil, err
	}
	return w, nil
}

var textBytes sync.Map

// textWant is what the text writer writes to an empty file.
func textWant(code int) []byte {
	if b, ok := textBytes.Load(code); ok {
		return b.([]byte)
	}
	f, err := os.CreateTemp(os.Getenv("VERIF_BIN"), "text")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	if err := fileCode(code).Save(textw.New(f)); err != nil {
		panic(err)
	}
	b, err := os.ReadFile(f.Name())
	if err != nil {
		panic(err)
	}
	textBytes.Store(code, b)
	return b
}

var junk = []byte(strings.Repeat("0123456789abcdef", 1024))

// step is the model of an operation; fails says whether it must return an error.
func (m *fileModel) step(o fileOp) (fails bool) {
	switch o.kind {
	case "open":
		t := m.resolve(o.path)
		if t == "" {
			return true
		}
		if m.files[t] == nil {
			m.files[t] = &inode{}
		}
		f := m.files[t]
		f.b, f.open = nil, f.open+1
		s := &m.slots[o.slot]
		s.used, s.done, s.wr, s.f = true, false, o.wr, f
	case "save":
		s := &m.slots[o.slot]
		if s.done {
			return true
		}
		s.f.b = fileWant(s.wr, o.code)
		s.done = true
		s.f.open--
	case "close":
		s := &m.slots[o.slot]
		if !s.done {
			s.done = true
			s.f.open--
		}
	case "remove":
		delete(m.files, "a")
	case "put":
		m.files["a"] = &inode{b: junk}
	case "text":
		f := m.files["a"]
		f.b = append(append([]byte(nil), f.b...), textWant(o.code)...)
	case "cd":
		if m.cwd == "" {
			m.cwd = "sub"
		} else {
			m.cwd = ""
		}
	}
	return false
}

type fileHist []fileOp

func (h fileHist) String() string {
	var l []string
	for _, o := range h {
		l = append(l, o.String())
	}
	return strings.Join(l, "; ")
}

func newFileModel() *fileModel { return &fileModel{files: map[string]*inode{}} }

// fileHists are all histories of a length.
func fileHists(depth int, full bool, opens func(fileOp) bool) (out []fileHist) {
	var rec func(h fileHist)
	rec = func(h fileHist) {
		if len(h) == depth {
			out = append(out, append(fileHist(nil), h...))
			return
		}
		m := newFileModel()
		for _, o := range h {
			m.step(o)
		}
		for _, o := range m.enabled(full) {
			if opens == nil || o.kind != "open" || opens(o) {
				rec(append(h, o))
			}
		}
	}
	rec(nil)
	return
}

func (h fileHist) run() (out eng.Out) {
	base := os.Getenv("VERIF_BIN")
	dir, err := os.MkdirTemp(base, "files")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	back, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer os.Chdir(back)
	for _, e := range []error{os.Mkdir(dir+"/sub", 0o700), os.Symlink("a", dir+"/link"), os.Chdir(dir)} {
		if e != nil {
			panic(e)
		}
	}
	m := newFileModel()
	var ws [2]qrcode.Writer
	for i, o := range h {
		var err error
		switch o.kind {
		case "open":
			var w qrcode.Writer
			if w, err = fileOpen(o.wr, nil, o.path); err == nil {
				ws[o.slot] = w
			}
		case "save":
			err = fileCode(o.code).Save(ws[o.slot])
		case "close":
			if e := ws[o.slot].Close(); e != nil && !m.slots[o.slot].done {
				err = e
			}
		case "remove":
			if e := os.Remove(dir + "/a"); e != nil {
				panic(e)
			}
		case "put":
			os.Remove(dir + "/a") // a new file, the old may be open
			if e := os.WriteFile(dir+"/a", junk, 0o600); e != nil {
				panic(e)
			}
		case "text":
			f, e := os.OpenFile(dir+"/a", os.O_APPEND|os.O_WRONLY, 0)
			if e != nil {
				panic(e)
			}
			err = fileCode(o.code).Save(textw.New(f))
			if e := f.Close(); e != nil && err == nil {
				err = fmt.Errorf("the file was closed: %v", e)
			}
		case "cd":
			to := dir
			if m.cwd == "" {
				to += "/sub"
			}
			if e := os.Chdir(to); e != nil {
				panic(e)
			}
		}
		if fails := m.step(o); fails != (err != nil) {
			return eng.V("step %d, %s: error %v", i+1, o, err)
		}
		if got, want := realListing(dir), m.listing(); got != want {
			return eng.V("after step %d, %s, the directory holds\n%s\ninstead of\n%s", i+1, o, got, want)
		}
	}
	// what is still open is what has been neither saved nor closed
	open := 0
	for _, s := range m.slots {
		if s.used && !s.done {
			open++
		}
	}
	n := 0
	if l, err := os.ReadDir("/proc/self/fd"); err == nil {
		for _, e := range l {
			if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir+"/") {
				n++
			}
		}
		if n > open {
			return eng.V("%d files are still open, %d writers have not been saved or closed", n, open)
		}
	}
	for _, w := range ws {
		if w != nil {
			w.Close()
		}
	}
	return eng.Out{Key: fmt.Sprintf("%x %d", hashBytes([]byte(m.listing())), open), Extra: map[string]int64{"file_operations": int64(len(h))}}
}

// nameCase is one writer for a file of a given name. The twin of the
// directory gets the same by os.OpenFile and Write.
type nameCase struct {
	wr, before int
	cd         bool
	name       string // ROOT stands for the absolute directory
	save       bool
}

var nameBefore = []string{"no file", "an old file", "an old file with a second name", "a link to an old file", "a link to no file", "a read-only old file"}

func (c nameCase) String() string {
	d := ""
	if c.cd {
		d = " from sub"
	}
	return fmt.Sprintf("%s writer for %q%s, %s, saved %v", fileWriters[c.wr], c.name, d, nameBefore[c.before], c.save)
}

func fileNames() []string {
	l := []string{
		"", ".", "..", "/", "sub", "sub/", "a/", "./a", "sub/../a", "../a", "none/a", "none/../a", "sub//b", "ROOT/a", "ROOT/none/a", "ROOT//sub/./b", "old/a",
		"loop", "chain", "chain/a", "subl", "subl/b", "subl/../a",
		"default.jpeg", "default.png", "default.jpg", "qrcode.png", "a.jpeg", "a.jpg", "a.png", "A.PNG", "a.gif", "a.webp", "a.tar.gz", "a.", ".a", ".a.png", "..a", "a..png", "...",
		" a", "a ", " a ", "a b", "\ta", "a\t", "\na", "a\n", "a\nb", "a\r\n", "a\x00b", "a\x00", "\x00", "\u00a0a", "a\u2003", "\ufeffa", " ", "\n", " /a", "sub /b", "sub/ b", "sub/b ", " sub/b",
		"Sub/b", "SUB", "É.png", "e\u0301.png", "\u00e9.png", "二维码.png", "\U0001f600", "\xff", "\xc3", "\u212a", "ß", "\u0130",
		"~", "~/a", "~root", "$HOME", "${HOME}", "%20", "a%20b", "%s", "%d%n", "a%2fb", "*", "a*", "?", "[a]", "{a,b}", "a;b", "a|b", "|a", ">a", "<a", "a&", "`a`", "$(a)", "'a'", "\"a\"", "'", "\\", "a\\b", "sub\\b", "C:a", "C:\\a", "a:b", "a,b", "a=b", "a#b", "a?b", "file:a", "file:///a", "http://a", "-", "--", "-a", "@a", "!a", "+a", "^a", "0", "nul", "NUL", "con", "CON.png", "stdout", "null", "a~", "a.tmp", "a.bak", "#a#",
		"sub/\x00", "sub/.", "sub/..", "sub/../../ROOTNAME/a", "././././a", strings.Repeat("./", 300) + "a", strings.Repeat("sub/../", 200) + "a",
	}
	for _, n := range []int{63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300} {
		l = append(l, strings.Repeat("n", n), strings.Repeat("n", n-4)+".png")
	}
	for b := 1; b < 256; b++ {
		l = append(l, "x"+string([]byte{byte(b)})+"y")
	}
	return l
}

func nameCases(th bool) (out []nameCase) {
	for _, n := range fileNames() {
		for b := range nameBefore {
			for wr := range fileWriters {
				for _, cd := range []bool{false, true} {
					for _, save := range []bool{true, false} {
						if len(n) == 3 && n[0] == 'x' && (b > 1 || cd || !save) && !th {
							continue
						}
						out = append(out, nameCase{wr, b, cd, n, save})
					}
				}
			}
		}
	}
	return
}

// tree lists everything below a directory with contents.
func tree(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, f os.FileInfo, err error) error {
		n, _ := filepath.Rel(dir, p)
		switch {
		case err != nil:
			l = append(l, fmt.Sprintf("%q: error", n))
		case f.IsDir():
			l = append(l, fmt.Sprintf("directory %q", n))
		case f.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			l = append(l, fmt.Sprintf("link %q to %q", n, t))
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				l = append(l, fmt.Sprintf("%q: error", n))
			}
			l = append(l, fmt.Sprintf("%q: %d bytes %x", n, len(b), hashBytes(b)))
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// lay makes a directory with the case's files in it.
func (c nameCase) lay(dir string) {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.Mkdir(dir, 0o700))
	must(os.Mkdir(dir+"/sub", 0o700))
	must(os.WriteFile(dir+"/old", junk[:1000], 0o600))
	must(os.Symlink("loop", dir+"/loop"))
	must(os.Symlink("chain2", dir+"/chain"))
	must(os.Symlink("sub/end", dir+"/chain2"))
	must(os.Symlink("sub", dir+"/subl"))
	if c.before == 0 {
		return
	}
	p := c.path(dir)
	if strings.Contains(p, "\x00") || !strings.HasPrefix(path.Clean(p), dir+"/") {
		return
	}
	if _, err := os.Lstat(p); err == nil {
		return // old and the links
	}
	// where it cannot be, there is none
	switch c.before {
	case 1:
		os.WriteFile(p, junk, 0o600)
	case 2:
		if os.WriteFile(p, junk, 0o600) == nil {
			must(os.Link(p, dir+"/second name"))
		}
	case 3:
		os.Symlink(dir+"/old", p)
	case 4:
		os.Symlink(dir+"/sub/new", p)
	case 5:
		os.WriteFile(p, junk, 0o400)
	}
}

func (c nameCase) full(dir string) string {
	return strings.ReplaceAll(strings.ReplaceAll(c.name, "ROOTNAME", filepath.Base(dir)), "ROOT", dir)
}

func (c nameCase) path(dir string) string {
	p := c.full(dir)
	if strings.HasPrefix(p, "/") {
		return p
	}
	if c.cd {
		return dir + "/sub/" + p
	}
	return dir + "/" + p
}

func (c nameCase) run() eng.Out {
	base, err := os.MkdirTemp(os.Getenv("VERIF_BIN"), "names")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	back, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer os.Chdir(back)
	// both directories have names of one length
	dirs := []string{base + "/real", base + "/twin"}
	var w qrcode.Writer
	var fd *os.File
	var errs [2]error
	same := func(when string) *eng.Out {
		if (errs[0] == nil) != (errs[1] == nil) {
			o := eng.V("%s: error %v; with os.OpenFile and Write: %v", when, errs[0], errs[1])
			return &o
		}
		a, b := strings.ReplaceAll(tree(dirs[0]), dirs[0], "DIR"), strings.ReplaceAll(tree(dirs[1]), dirs[1], "DIR")
		if a != b {
			o := eng.V("%s, the directory holds\n%s\ninstead of\n%s", when, a, b)
			return &o
		}
		return nil
	}
	for i, d := range dirs {
		c.lay(d)
		if c.cd {
			d += "/sub"
		}
		if err := os.Chdir(d); err != nil {
			panic(err)
		}
		if i == 0 {
			w, errs[i] = fileOpen(c.wr, nil, c.full(dirs[i]))
		} else {
			fd, errs[i] = os.OpenFile(c.full(dirs[i]), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
		}
	}
	if o := same("after creation"); o != nil {
		return *o
	}
	if errs[0] == nil {
		if c.save {
			errs[0] = fileCode(1).Save(w)
			_, errs[1] = fd.Write(fileWant(c.wr, 1))
		} else {
			errs[0] = w.Close()
		}
		fd.Close()
		if o := same("at the end"); o != nil {
			return *o
		}
	}
	return eng.K("%x %v %d", hashBytes([]byte(strings.ReplaceAll(tree(dirs[0]), dirs[0], "DIR"))), errs[0], c.wr)
}

// fullDisk: the device accepts nothing.
func fullDisk(i int64) eng.Out {
	w, err := fileOpen(int(i), nil, "/dev/full")
	if err != nil {
		return eng.V("%v", err)
	}
	if err := fileCode(0).Save(w); err == nil {
		return eng.V("nothing could be written but Save returns no error")
	}
	return eng.K("full %d", i)
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C29", Level: "exploration",
		Rule: "one history of file operations per case, run in a scratch directory; after every operation the whole directory is compared with a model of it, and open descriptors at the end. Distinct by final state.",
		Assumptions: []string{
			"two writers open on the same file at once, or a file changed by others between creation and Save, are left out: nothing is promised for them",
			"the bytes a stream gets are decided by C13 and C19",
		},
		Bounds: map[string]string{
			"quick":    "all histories of up to 4 operations: create a PNG, JPEG or compressed writer for a plain name, one in a directory, a link, a name in a missing directory or a directory; save 2 codes, close, remove, overwrite, append text, change directory; 2 writers. All of 6 operations with names a and link and one kind of writer each. The full device for each writer. 210 kinds of names (blanks, case, other scripts, shell and URL characters, every byte, lengths around 64, 128 and 255, dots, slashes, links, loops) for no file, an old file, one with a second name, links to an old and no file and a read-only file, from two directories, saved or only closed, against a twin directory written with os.OpenFile.",
			"thorough": "all histories of 5 operations, and of 7 with fewer names",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			var sp []*eng.Space
			hs := func(name string, l []fileHist) {
				sp = append(sp, list(name, l, fileHist.run, fileHist.String))
			}
			max, few := 4, 6
			if th {
				max, few = 5, 7
			}
			for d := 1; d <= max; d++ {
				hs(fmt.Sprintf("%d operations", d), fileHists(d, true, nil))
			}
			for w := range fileWriters {
				w := w
				hs(fmt.Sprintf("%d operations, %s", few, fileWriters[w]), fileHists(few, false, func(o fileOp) bool {
					return o.wr == (w+o.slot)%3 && (o.path == "a" && o.slot == 0 || o.path == "link" && o.slot == 1)
				}))
			}
			sp = append(sp, &eng.Space{Name: "full device", N: 3, Run: fullDisk, Desc: func(i int64) string { return fileWriters[i] + " writer for /dev/full" }})
			return append(sp, list("names", nameCases(th), nameCase.run, nameCase.String))
		},
	})
}
