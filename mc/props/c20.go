package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif.local/mc/eng"
	"verif.local/mc/ref"

	"github.com/yeqown/go-qrcode/writer/file"
)

// textPicture is the picture of a symbol in half blocks.
func textPicture(s *ref.Symbol) string {
	var sb strings.Builder
	for y := 0; y < s.N; y += 2 {
		for x := 0; x < s.N; x++ {
			up := s.At(x, y)
			down := y+1 < s.N && s.At(x, y+1)
			switch {
			case up && down:
				sb.WriteString("█")
			case up:
				sb.WriteString("▀")
			case down:
				sb.WriteString("▄")
			default:
				sb.WriteString(" ")
			}
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

// textSeq prints codes one after another to one file that holds something already.
type textSeq struct {
	codes [][3]int
	kind  int // how the file is opened
	one   bool
}

var textKinds = []string{"new file", "file with contents, at its end", "file with contents, at its start", "file with contents, in the middle", "appending", "pipe"}

func (c textSeq) String() string {
	s := fmt.Sprintf("codes %v (version, level, text), %s", c.codes, textKinds[c.kind])
	if c.one {
		s += ", one writer"
	}
	return s
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	ln := strings.Count(a[:i], "\n")
	return fmt.Sprintf("%d bytes, want %d; first difference at byte %d (line %d)", len(a), len(b), i, ln)
}

func (c textSeq) run() eng.Out {
	dir, done := tempDir()
	defer done()
	name := filepath.Join(dir, "t.txt")
	old := strings.Repeat("0123456789\n", 20)
	var f, r *os.File
	var err error
	pos := 0
	switch c.kind {
	case 0:
		old = ""
		f, err = os.Create(name)
	case 5:
		old = ""
		r, f, err = os.Pipe()
	default:
		os.WriteFile(name, []byte(old), 0o644)
		fl := os.O_RDWR
		if c.kind == 4 {
			fl |= os.O_APPEND
		}
		f, err = os.OpenFile(name, fl, 0o644)
		switch c.kind {
		case 1, 4:
			pos = len(old)
		case 3:
			pos = 33
		}
		if err == nil && c.kind != 4 {
			_, err = f.Seek(int64(pos), 0)
		}
	}
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var piped chan []byte
	if r != nil {
		defer r.Close()
		piped = make(chan []byte, 1)
		go func() {
			var b bytes.Buffer
			b.ReadFrom(r)
			piped <- b.Bytes()
		}()
	}
	want := ""
	w := file.New(f)
	for _, k := range c.codes {
		code := codeFor(k[0], k[1], k[2])
		if !c.one {
			w = file.New(f)
		}
		if err := code.q.Save(w); err != nil {
			return eng.V("Save: %v", err)
		}
		want += textPicture(code.sym)
	}
	// the file is still open, and its position is behind the last picture
	if _, err := f.WriteString("after"); err != nil {
		return eng.V("the file cannot be written after Save: %v", err)
	}
	want += "after"
	var got []byte
	if r != nil {
		f.Close()
		got = <-piped
	} else if got, err = os.ReadFile(name); err != nil {
		panic(err)
	}
	full := old[:pos] + want
	if pos+len(want) < len(old) {
		full += old[pos+len(want):]
	}
	if string(got) != full {
		return eng.V("%s", firstDiff(string(got), full))
	}
	return eng.K("%s %x", textKinds[c.kind], hashBytes(got))
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C20", Level: "exploration",
		Rule:        "one sequence of saves to one real file or pipe per case; every byte of the file afterwards is compared with the picture made from the symbol. Distinct by contents.",
		Assumptions: []string{"lines end with one newline character; the file is used from its current position"},
		Bounds: map[string]string{
			"quick":    "40 versions x 4 levels x 12 texts; all sequences of up to 3 codes of 3 sizes x 6 ways of opening the file x one or several writers",
			"thorough": "40 versions x 4 levels x 80 texts; all sequences of up to 4 codes of 4 sizes",
		},
		Spaces: func(tier string) []*eng.Space {
			ks, max := 12, 3
			cs := [][3]int{{1, 0, 0}, {2, 1, 1}, {7, 2, 2}}
			if tier == "thorough" {
				ks, max = 80, 4
				cs = append(cs, [3]int{15, 3, 3})
			}
			one := func(i int64) textSeq {
				c := combo(i, 40, 4, ks)
				return textSeq{codes: [][3]int{{c[0] + 1, c[1], c[2]}}}
			}
			nw := wordCount(len(cs), max)
			seq := func(i int64) textSeq {
				c := combo(i, int(nw), len(textKinds), 2)
				t := textSeq{kind: c[1], one: c[2] == 1}
				for _, k := range word(int64(c[0]), len(cs)) {
					t.codes = append(t.codes, cs[k])
				}
				return t
			}
			return []*eng.Space{
				{Name: "symbols", N: prod(40, 4, ks), Run: func(i int64) eng.Out { return one(i).run() }, Desc: func(i int64) string { return one(i).String() }},
				{Name: "sequences", N: nw * int64(len(textKinds)) * 2, Run: func(i int64) eng.Out { return seq(i).run() }, Desc: func(i int64) string { return seq(i).String() }},
				list("nil file", []int{1, 2, 5}, func(v int) eng.Out {
					err, pan := saveCatch(codeFor(v, 0, 0).q, file.New(nil))
					if err == nil || pan != nil {
						return eng.V("error %v, panic %v", err, pan)
					}
					return eng.K("%d %v", v, err)
				}, func(v int) string { return fmt.Sprint("version ", v) }),
			}
		},
	})
}
