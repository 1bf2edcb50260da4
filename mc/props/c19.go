package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"os"
	"path/filepath"

	"verif.local/mc/eng"

	"github.com/yeqown/go-qrcode/writer/compressed"
)

// pngShape walks over the chunks of a PNG: the header, the number of palette entries, and what follows the end.
func pngShape(b []byte) (depth, ctype, palette, rest int, err error) {
	if len(b) < 8 || string(b[:8]) != "\x89PNG\r\n\x1a\n" {
		return 0, 0, 0, 0, fmt.Errorf("no PNG signature in %d bytes", len(b))
	}
	p := 8
	for p+12 <= len(b) {
		n := int(binary.BigEndian.Uint32(b[p:]))
		name := string(b[p+4 : p+8])
		if p+12+n > len(b) {
			return 0, 0, 0, 0, fmt.Errorf("chunk %s is cut", name)
		}
		d := b[p+8 : p+8+n]
		switch name {
		case "IHDR":
			depth, ctype = int(d[8]), int(d[9])
		case "PLTE":
			palette = n / 3
		}
		p += 12 + n
		if name == "IEND" {
			return depth, ctype, palette, len(b) - p, nil
		}
	}
	return 0, 0, 0, 0, fmt.Errorf("no end chunk")
}

// compressedBytes checks what the compressed writer wrote.
func compressedBytes(c *coded, b []byte, block, pad int) string {
	depth, ctype, pal, rest, err := pngShape(b)
	if err != nil {
		return err.Error()
	}
	if rest != 0 {
		return fmt.Sprintf("%d bytes follow the picture", rest)
	}
	if ctype != 0 && ctype != 3 || depth != 1 || pal > 2 {
		return fmt.Sprintf("colour type %d, depth %d, %d palette entries: not a two-colour picture", ctype, depth, pal)
	}
	m, err := png.Decode(bytes.NewReader(b))
	if err != nil {
		return err.Error()
	}
	side := c.sym.N*block + 2*pad
	if m.Bounds() != image.Rect(0, 0, side, side) {
		return fmt.Sprintf("picture is %v, want a side of %d", m.Bounds(), side)
	}
	var black, white [256]bool
	var at func(x, y int) (bool, bool)
	switch m := m.(type) {
	case *image.Paletted:
		for i, p := range m.Palette {
			v := color.RGBA64Model.Convert(p).(color.RGBA64)
			black[i] = v == color.RGBA64{A: 0xffff}
			white[i] = v == color.RGBA64{0xffff, 0xffff, 0xffff, 0xffff}
		}
		at = func(x, y int) (bool, bool) { v := m.Pix[y*m.Stride+x]; return black[v], white[v] }
	default:
		at = func(x, y int) (bool, bool) {
			v := color.RGBA64Model.Convert(m.At(x, y)).(color.RGBA64)
			return v == color.RGBA64{A: 0xffff}, v == color.RGBA64{0xffff, 0xffff, 0xffff, 0xffff}
		}
	}
	n := c.sym.N
	for y := 0; y < side; y++ {
		for x := 0; x < side; x++ {
			dark := false
			if x >= pad && y >= pad && x < pad+n*block && y < pad+n*block {
				dark = c.sym.At((x-pad)/block, (y-pad)/block)
			}
			if bl, wh := at(x, y); bl != dark || wh == dark {
				return fmt.Sprintf("pixel (%d,%d) is %v, dark %v is wanted", x, y, m.At(x, y), dark)
			}
		}
	}
	return ""
}

type comprCase struct{ ver, ec, k, block, pad int }

func (c comprCase) String() string {
	return fmt.Sprintf("version %d-%d text %d, block size %d, padding %d", c.ver, c.ec, c.k, c.block, c.pad)
}

func (c comprCase) run() eng.Out {
	code := codeFor(c.ver, c.ec, c.k)
	o := &compressed.Option{BlockSize: c.block, Padding: c.pad}
	var first []byte
	for i := 0; i < 2; i++ { // the option object is used twice
		var s sink
		if err := code.q.Save(compressed.NewWithWriter(&s, o)); err != nil {
			return eng.V("save %d: %v", i+1, err)
		}
		if i == 0 {
			first = append([]byte(nil), s.Bytes()...)
			if bad := compressedBytes(code, first, c.block, c.pad); bad != "" {
				return eng.V("%s", bad)
			}
		} else if !bytes.Equal(first, s.Bytes()) {
			return eng.V("the second save wrote something else")
		}
	}
	if (*o != compressed.Option{BlockSize: c.block, Padding: c.pad}) {
		return eng.V("the option object was changed to %+v", *o)
	}
	return eng.K("%d %d %d %x", c.ver, c.block, c.pad, hashSym(code.sym))
}

// overCase writes to a file that is there already.
type overCase struct {
	ver, kind, old int // old: length of the old contents, -1: no file
	twice          bool
}

var overKinds = []string{"zeros", "its own kind of picture", "text"}

func (c overCase) String() string {
	s := fmt.Sprintf("version %d over a file of %d bytes (%s)", c.ver, c.old, overKinds[c.kind])
	if c.old < 0 {
		s = fmt.Sprintf("version %d to a new file", c.ver)
	}
	if c.twice {
		s += " reached through a link"
	}
	return s
}

func (c overCase) run() eng.Out {
	dir, done := tempDir()
	defer done()
	code := codeFor(c.ver, 1, 1)
	o := &compressed.Option{BlockSize: 2, Padding: 3}
	name := filepath.Join(dir, "out.png")
	if c.old >= 0 {
		old := make([]byte, c.old)
		switch c.kind {
		case 1:
			var s sink
			if err := codeFor(10, 1, 1).q.Save(compressed.NewWithWriter(&s, &compressed.Option{BlockSize: 3, Padding: 1})); err != nil {
				return eng.V("%v", err)
			}
			for i := 0; i < c.old; i += s.Len() {
				copy(old[i:], s.Bytes())
			}
		case 2:
			for i := range old {
				old[i] = byte('a' + i%26)
			}
		}
		if err := os.WriteFile(name, old, 0o644); err != nil {
			panic(err)
		}
	}
	path := name
	if c.twice {
		path = filepath.Join(dir, "link")
		if err := os.Symlink(name, path); err != nil {
			panic(err)
		}
	}
	w, err := compressed.New(path, o)
	if err != nil {
		return eng.V("New: %v", err)
	}
	if err := code.q.Save(w); err != nil {
		return eng.V("Save: %v", err)
	}
	b, err := os.ReadFile(name)
	if err != nil {
		return eng.V("%v", err)
	}
	if bad := compressedBytes(code, b, 2, 3); bad != "" {
		return eng.V("%s", bad)
	}
	es, _ := os.ReadDir(dir)
	want := 1
	if c.twice {
		want = 2
	}
	if len(es) != want {
		return eng.V("%d files in the directory", len(es))
	}
	return eng.K("%v", c)
}

func comprBad(kind string) eng.Out {
	dir, done := tempDir()
	defer done()
	p := map[string]string{"missing directory": "no/such/x.png", "directory": "", "below a file": "f/x.png", "empty name": ""}[kind]
	os.WriteFile(filepath.Join(dir, "f"), []byte("data"), 0o644)
	p = filepath.Join(dir, p)
	if kind == "empty name" {
		p = ""
	}
	w, err := compressed.New(p, &compressed.Option{BlockSize: 1})
	if err == nil {
		return eng.V("no error")
	}
	if w != nil {
		return eng.V("a writer and the error %v", err)
	}
	if b, _ := os.ReadFile(filepath.Join(dir, "f")); string(b) != "data" {
		return eng.V("another file was changed")
	}
	return eng.K("%s", kind)
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C19", Level: "exploration",
		Rule:        "one picture per case; the chunks of the file are walked and every pixel is decoded and compared with the symbol. Distinct by symbol, block size and padding, or by previous file contents.",
		Assumptions: []string{"a PNG is read as image/png reads it; block sizes are at least 1 and paddings at least 0"},
		Bounds: map[string]string{
			"quick":    "40 versions x 4 levels x 4 texts x 3 block sizes x 3 paddings; 5 versions x block sizes 1-24 x paddings 0-20; paddings 0-300, 1000 and 4000, block sizes 1-130 and around 256; 7 versions x 3 kinds x 28 lengths of old contents, directly and through a link",
			"thorough": "40 versions x 4 levels x 8 texts x 4 block sizes x 4 paddings; 10 versions x block sizes 1-40 x paddings 0-40",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			ks, bs, ps := 4, []int{1, 2, 5}, []int{0, 1, 7}
			vers, mb, mp := []int{1, 2, 3, 7, 10}, 24, 21
			if th {
				ks, bs, ps = 8, []int{1, 2, 5, 8}, []int{0, 1, 7, 40}
				vers, mb, mp = []int{1, 2, 3, 4, 6, 7, 9, 10, 14, 21}, 40, 41
			}
			all := func(i int64) comprCase {
				c := combo(i, 40, 4, ks, len(bs), len(ps))
				return comprCase{c[0] + 1, c[1], c[2], bs[c[3]], ps[c[4]]}
			}
			dims := func(i int64) comprCase {
				c := combo(i, len(vers), mb, mp)
				return comprCase{vers[c[0]], 2, c[1], c[1] + 1, c[2]}
			}
			var over []overCase
			for _, v := range []int{1, 2, 3, 5, 7, 15, 40} {
				var s sink
				codeFor(v, 1, 1).q.Save(compressed.NewWithWriter(&s, &compressed.Option{BlockSize: 2, Padding: 3}))
				n := s.Len()
				for k := range overKinds {
					for _, l := range []int{-1, 0, 1, 7, 8, 9, 57, n / 3, n / 2, n - 100, n - 13, n - 12, n - 11, n - 1, n, n + 1, n + 2, n + 11, n + 12, n + 13, n + 100, 2 * n, 3*n + 1, 4096, 8192, 65536, 100000, 1 << 20} {
						for t := 0; t < 2; t++ {
							if l >= -1 && (l >= 0 || t == 0) {
								over = append(over, overCase{v, k, l, t == 1})
							}
						}
					}
				}
			}
			var wide []comprCase
			for p := 0; p <= 300; p++ {
				wide = append(wide, comprCase{1, p % 4, p, 1 + p%3, p})
			}
			for b := 1; b <= 130; b++ {
				wide = append(wide, comprCase{1 + b%2, b % 4, b, b, b % 5})
			}
			for _, x := range [][2]int{{1, 1000}, {1, 4000}, {255, 1}, {256, 0}, {257, 257}, {300, 511}, {1, 65}, {64, 64}} {
				wide = append(wide, comprCase{1, 0, 1, x[0], x[1]})
			}
			return []*eng.Space{
				list("wide", wide, comprCase.run, comprCase.String),
				{Name: "symbols", N: prod(40, 4, ks, len(bs), len(ps)), Run: func(i int64) eng.Out { return all(i).run() }, Desc: func(i int64) string { return all(i).String() }},
				{Name: "sizes", N: prod(len(vers), mb, mp), Run: func(i int64) eng.Out { return dims(i).run() }, Desc: func(i int64) string { return dims(i).String() }},
				list("existing files", over, overCase.run, overCase.String),
				list("bad names", []string{"missing directory", "directory", "below a file", "empty name"}, comprBad, func(s string) string { return s }),
			}
		},
	})
}
