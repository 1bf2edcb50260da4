package props

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

// cliVal is one way of giving a flag: arguments, meaning, and whether the command must refuse it.
type cliVal struct {
	args []string
	val  int
	b    [4]int
	s    string
	bad  string // "": good; "value": refused before files are touched; "run": fails when writing
}

type cliCase struct {
	out, block, border cliVal
	circle, transp     cliVal
	half               cliVal
	text               cliVal
	old                bool // the output file exists
	lib                bool // compared with the picture of the library as well
}

func (c cliCase) vals() []cliVal {
	return []cliVal{c.out, c.block, c.border, c.circle, c.transp, c.half, c.text}
}

func (c cliCase) args() (out []string) {
	for _, v := range c.vals() {
		out = append(out, v.args...)
	}
	return
}

func (c cliCase) String() string {
	var l []string
	for _, a := range c.args() {
		if len(a) > 40 {
			a = fmt.Sprintf("%s...(%d bytes)", a[:40], len(a))
		}
		l = append(l, fmt.Sprintf("%q", a))
	}
	s := "qrcode " + strings.Join(l, " ")
	if c.old {
		s += ", the file exists"
	}
	return s
}

func cliRun(dir string, args []string) (rc int, stdout, stderr string) {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), "qrcode"), args...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true} // no terminal
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	return cmd.ProcessState.ExitCode(), o.String(), e.String()
}

// files lists a directory with contents.
func files(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, f os.FileInfo, err error) error {
		if err == nil && f.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			m[strings.TrimPrefix(p, dir+"/")] = string(b)
		}
		return nil
	})
	return m
}

func (c cliCase) run() eng.Out {
	dir, done := tempDir()
	defer done()
	os.Mkdir(filepath.Join(dir, "sub"), 0o755)
	os.Mkdir(filepath.Join(dir, "d.png"), 0o755)
	os.Mkdir(filepath.Join(dir, "d2.png"), 0o755)
	os.Symlink("/dev/full", filepath.Join(dir, "full.png"))
	os.Symlink("/dev/full", filepath.Join(dir, "full.jpg"))
	os.WriteFile(filepath.Join(dir, "not-a-picture"), []byte("text"), 0o644)
	f, _ := os.Create(filepath.Join(dir, "half.png"))
	png.Encode(f, image.NewGray(image.Rect(0, 0, 40, 40)))
	f.Close()
	if c.old {
		os.WriteFile(filepath.Join(dir, c.out.s), bytes.Repeat([]byte("old contents\n"), 20000), 0o644)
	}
	before := files(dir)
	rc, _, stderr := cliRun(dir, c.args())
	after := files(dir)
	bad := ""
	for _, v := range c.vals() {
		if v.bad == "value" || v.bad == "run" && bad == "" {
			bad = v.bad
		}
	}
	for n, b := range after {
		if n == c.out.s && bad != "value" {
			continue
		}
		if o, ok := before[n]; !ok || o != b {
			return eng.V("the file %s was created or changed (exit status %d)", n, rc)
		}
	}
	for n := range before {
		if _, ok := after[n]; !ok {
			return eng.V("the file %s is gone", n)
		}
	}
	if bad != "" {
		if rc == 0 {
			return eng.V("exit status 0; the command cannot do that")
		}
		if strings.TrimSpace(stderr) == "" {
			return eng.V("exit status %d and nothing on standard error", rc)
		}
		return eng.K("fails %v", c)
	}
	if rc != 0 {
		return eng.V("exit status %d: %s", rc, tail(stderr, 300))
	}
	b, ok := after[c.out.s]
	if !ok {
		return eng.V("no file %s", c.out.s)
	}
	q, err := qrcode.New(c.text.s)
	if err != nil {
		return eng.V("%v", err)
	}
	sym, err := qr.Of(q)
	if err != nil {
		return eng.V("%v", err)
	}
	if d := cliPicture(c, []byte(b), sym); d != "" {
		return eng.V("%s", d)
	}
	return eng.K("%v", c)
}

// cliPicture checks the file that was written.
func cliPicture(c cliCase, b []byte, sym *ref.Symbol) string {
	code := &coded{sym: sym, kin: ref.GetLayout((sym.N - 17) / 4).Kind}
	g := newGeom(code, effWidth(c.block.val), c.border.b)
	g.transp = c.transp.val == 1
	isPNG := strings.HasSuffix(c.out.s, ".png")
	rd := bytes.NewReader(b)
	var m image.Image
	var err error
	if isPNG {
		m, err = png.Decode(rd)
		if err == nil && rd.Len() > 0 {
			return fmt.Sprintf("%d bytes after the PNG", rd.Len())
		}
	} else {
		g.transp = false
		m, err = jpeg.Decode(rd)
		if err == nil && (len(b) < 2 || b[len(b)-2] != 0xff || b[len(b)-1] != 0xd9) {
			return "the JPEG does not end with its end marker"
		}
	}
	if err != nil {
		return err.Error()
	}
	if m.Bounds() != image.Rect(0, 0, g.w, g.h) {
		return fmt.Sprintf("picture is %v, want %dx%d", m.Bounds(), g.w, g.h)
	}
	plain := c.circle.val == 0 && c.half.val == 0
	if c.lib {
		if d := c.library(m, isPNG); d != "" {
			return d
		}
	}
	if isPNG {
		img := toRGBA(m)
		if plain {
			return g.compare(img, g.plain())
		}
		if g.bw < 5 || c.circle.val+c.half.val == 2 && g.bw < 12 {
			return "" // a circle of the size of a third of a block shows nothing there
		}
		diff := false
		for y := 0; y < g.h; y++ {
			for x := 0; x < g.w; x++ {
				mx, my := g.module(x, y)
				want := g.want(x, y)
				same := same(img.RGBAAt(x, y), want)
				if mx < 0 || (x-g.border[3])%g.bw == g.bw/2 && (y-g.border[0])%g.bw == g.bw/2 {
					if !same {
						return fmt.Sprintf("pixel (%d,%d) of module (%d,%d) is %v, want %v", x, y, mx, my, img.RGBAAt(x, y), want)
					}
				} else {
					diff = diff || !same
				}
			}
		}
		if !diff {
			return "the picture has neither circles nor the halftone picture"
		}
		return ""
	}
	if g.bw < 5 || c.half.val == 1 {
		return ""
	}
	for my := 0; my < g.n; my++ {
		for mx := 0; mx < g.n; mx++ {
			x, y := g.border[3]+mx*g.bw+g.bw/2, g.border[0]+my*g.bw+g.bw/2
			l := color.GrayModel.Convert(m.At(x, y)).(color.Gray).Y
			if (l < 128) != g.sym.At(mx, my) {
				return fmt.Sprintf("the middle of module (%d,%d) of the JPEG has grey value %d, dark %v is wanted", mx, my, l, g.sym.At(mx, my))
			}
		}
	}
	return ""
}

// library compares with the picture that the library's writer makes with the options asked for.
func (c cliCase) library(m image.Image, isPNG bool) string {
	opts := []standard.ImageOption{standard.WithQRWidth(uint8(c.block.val)), standard.WithBorderWidth(c.border.b[:]...), standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT)}
	if isPNG {
		opts = append(opts, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	}
	if c.circle.val == 1 {
		opts = append(opts, standard.WithCircleShape())
	}
	if c.transp.val == 1 {
		opts = append(opts, standard.WithBgTransparent())
	}
	if c.half.val == 1 {
		opts = append(opts, standard.WithHalftoneImage(image.NewGray(image.Rect(0, 0, 40, 40))))
	}
	q, err := qrcode.New(c.text.s)
	if err != nil {
		return err.Error()
	}
	var s sink
	if err := q.Save(standard.NewWithWriter(&s, opts...)); err != nil {
		return err.Error()
	}
	w, _, err := image.Decode(bytes.NewReader(s.Bytes()))
	if err != nil {
		return err.Error()
	}
	if w.Bounds() != m.Bounds() {
		return fmt.Sprintf("picture is %v, the library's %v", m.Bounds(), w.Bounds())
	}
	a, b := toRGBA(m), toRGBA(w)
	far := 0
	for i := range a.Pix {
		if d := int(a.Pix[i]) - int(b.Pix[i]); d > 40 || d < -40 || isPNG && d != 0 {
			far++
		}
	}
	if far > 0 && isPNG || far*100 > len(a.Pix) {
		return fmt.Sprintf("%d of %d samples differ from the picture of the library with these options", far, len(a.Pix))
	}
	return ""
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C22", Level: "exploration",
		Rule: "one run of the command in a scratch directory per case; exit status, standard error and every file of the directory are checked, the written picture pixel by pixel against the symbol. Distinct by command line.",
		Assumptions: []string{
			"flags come before the text; the texts 'help' and 'h' show the help (a command of the flag library)",
			"the library's symbol for the text is right (C01); for circles and halftone pictures the middle of every module is checked, for small JPEGs the size only",
		},
		Bounds: map[string]string{
			"quick":    "8 outputs x 5 block sizes x 4 borders x circle x transparent x halftone x 4 texts (long and short flags); block sizes 0-255 (with circles, transparency, halftone and as JPEG up to 48), every border from 0 to 255 on each side, every byte in 5 contexts and 43 texts that shells, formats and flag libraries treat specially, 400 lengths in every mode, 400 file names, these compared with the library as well; 10 bad block sizes, 20 bad borders, 6 bad texts, 7 outputs that cannot be written, unknown flags, each with 24 settings of the rest; over existing files",
			"thorough": "10 block sizes x 6 borders x 9 texts; bad values with 192 settings of the rest",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			l := func(a ...string) []string { return a }
			outs := []cliVal{
				{args: nil, s: "qrcode.jpg"}, {args: l("-o", "a.png"), s: "a.png"}, {args: l("--output=a.jpg"), s: "a.jpg"}, {args: l("-output", "b.jpeg"), s: "b.jpeg"},
				{args: l("-o=noext"), s: "noext"}, {args: l("--o", "sub/a.b.png"), s: "sub/a.b.png"}, {args: l("-o", "a.png.gif"), s: "a.png.gif"}, {args: l("-o", "sub/x y.png"), s: "sub/x y.png"},
			}
			blocks := []cliVal{{val: 5}, {args: l("-s", "7"), val: 7}, {args: l("--block=1"), val: 1}, {args: l("-block", "0"), val: 0}, {args: l("--s=20"), val: 20}}
			borders := []cliVal{{}, {args: l("-b", "0,0,0,0")}, {args: l("--borders=1,2,3,4"), b: [4]int{1, 2, 3, 4}}, {args: l("--b", "255,0,17,8"), b: [4]int{255, 0, 17, 8}}}
			texts := []cliVal{{args: l("hello, world"), s: "hello, world"}, {args: l("12345"), s: "12345"}, {args: l("漢字"), s: "漢字"}, {args: l("--", "-o"), s: "-o"}}
			if th {
				blocks = append(blocks, cliVal{args: l("-s", "2"), val: 2}, cliVal{args: l("-s=3"), val: 3}, cliVal{args: l("-s", "4"), val: 4}, cliVal{args: l("-s", "33"), val: 33}, cliVal{args: l("-s", "6"), val: 6})
				borders = append(borders, cliVal{args: l("-borders", "9,9,9,9"), b: [4]int{9, 9, 9, 9}}, cliVal{args: l("-b=0,1,0,0"), b: [4]int{0, 1, 0, 0}})
				texts = append(texts, cliVal{args: l("HTTPS://EXAMPLE.ORG/?Q=1", "ignored"), s: "HTTPS://EXAMPLE.ORG/?Q=1"}, cliVal{args: l(strings.Repeat("long text ", 12)), s: strings.Repeat("long text ", 12)},
					cliVal{args: l("a=b"), s: "a=b"}, cliVal{args: l(" "), s: " "}, cliVal{args: l("line\nbreak\ttab"), s: "line\nbreak\ttab"})
			}
			off := cliVal{}
			circles := []cliVal{off, {args: l("--circle"), val: 1}}
			transps := []cliVal{off, {args: l("-transparent"), val: 1}}
			halfs := []cliVal{off, {args: l("--halftone", "half.png"), val: 1}}
			good := func(i int64) cliCase {
				c := combo(i, len(outs), len(blocks), len(borders), 2, 2, 2, len(texts))
				return cliCase{outs[c[0]], blocks[c[1]], borders[c[2]], circles[c[3]], transps[c[4]], halfs[c[5]], texts[c[6]], false, false}
			}
			var old, single []cliCase
			for _, o := range outs {
				for _, t := range texts {
					for _, tr := range transps {
						old = append(old, cliCase{o, blocks[0], borders[0], off, tr, off, t, true, false})
					}
				}
			}
			for _, bw := range []int{200, 254, 255} {
				for _, o := range outs[:3] {
					single = append(single, cliCase{o, cliVal{args: l("-s", fmt.Sprint(bw)), val: bw}, borders[2], off, off, off, texts[1], false, false})
				}
			}
			for _, t := range []cliVal{{args: l(fill(ref.Byte, 1273, 1)[:1] + strings.Repeat("b", 1272))}, {args: l(strings.Repeat("7", 3057))}, {args: l(strings.Repeat("A", 1852))}} {
				t.s = t.args[0]
				for _, o := range outs[:3] {
					single = append(single, cliCase{o, blocks[0], borders[0], off, off, off, t, false, false})
				}
			}
			for _, o := range outs {
				single = append(single, cliCase{o, blocks[0], borders[2], cliVal{args: l("--circle=false")}, cliVal{args: l("--transparent=false")}, cliVal{args: l("--halftone=")}, texts[0], false, false},
					cliCase{o, blocks[0], borders[2], cliVal{args: l("--circle=true"), val: 1}, cliVal{args: l("--terminal=false")}, off, texts[0], false, false})
			}
			var more []cliCase
			many := func(c cliCase) {
				c.lib = true
				more = append(more, c)
			}
			base := cliCase{out: outs[1], block: cliVal{args: l("-s", "3"), val: 3}, border: borders[0], circle: off, transp: off, half: off, text: texts[1]}
			for v := 0; v < 256; v++ {
				c := base
				if v <= 48 || v%16 < 2 && v < 200 || v > 253 {
					for k := 0; k < 8; k++ {
						if v > 48 && k > 1 {
							continue
						}
						c.block, c.circle, c.transp, c.half, c.out = cliVal{args: l("-s", fmt.Sprint(v)), val: v}, circles[k&1], transps[k>>1&1], halfs[k>>2], outs[1]
						many(c)
						if v <= 24 && k < 2 {
							c.out = outs[2]
							many(c)
						}
					}
				}
				c = base
				for k := 0; k < 5; k++ {
					b := [4]int{1, 2, 3, 4}
					if k < 4 {
						b[k] = v
					} else {
						b = [4]int{v, v, v, v}
					}
					c.border = cliVal{args: l("-b", fmt.Sprintf("%d,%d,%d,%d", b[0], b[1], b[2], b[3])), b: b}
					many(c)
				}
				if v == 0 {
					continue // cannot be in an argument
				}
				c = base
				for _, t := range []string{string([]byte{byte(v)}), string([]byte{'x', byte(v)}), string([]byte{byte(v), 'x'}), string([]byte{'x', byte(v), 'y'}), string([]byte{byte(v), byte(v)})} {
					if t == "h" {
						continue // help
					}
					c.text = cliVal{args: l("--", t), s: t}
					many(c)
				}
			}
			for i, t := range []string{"  ", " a", "a ", "a\n", "\ta", "a  b", "a\x01b", "漢 字", "漢字 ", "Ünïcode", "\ufeffa", "a\u00a0", "\U0001F600", "=", "a=b", "--", "-", "-s", "--circle", "%41", "a%20b", "%d%s", "\\n", "'a'", "\"a\"", "$HOME", "~", "*", "@half.png", "half.png", "http://a/?b=c&d=e#f", "WIFI:T:WPA;S:a;P:b;;", "00", "007", "1e5", "0x10", "true", "version", "help me", "Help", "a,b", "a;b", "a\\,b"} {
				c := base
				c.text = cliVal{args: l("--", t), s: t}
				many(c)
				c.text.args = append(c.text.args, "more", "-s", "9")
				c.circle = circles[i%2]
				many(c)
			}
			for n := 1; n <= 2000; n++ {
				for m := ref.Numeric; m <= ref.Kanji; m++ {
					if n > 40 && n%97 != 0 || n > ref.Cap(40, ref.Q, m) {
						continue
					}
					c := base
					t := fill(m, n, n)
					if strings.ContainsRune(t, 0) || t == "h" {
						continue
					}
					c.block = cliVal{args: l("-s=1"), val: 1}
					c.text = cliVal{args: l("--", t), s: t}
					many(c)
				}
			}
			for _, o := range []string{".png", "png", "a.pngx", "a.png ", "d2.png/x", "sub/../b.png", "./a.jpg", "ü漢.png", "a b.jpeg", "-a.png", "a=b.png", "a%d.png", "a.jpg.png", "a..png", "a.", "$HOME.png", "~.png", "sub//c.png", "*.png", "a,b.png"} {
				for k, t := range transps {
					c := base
					c.block, c.transp = blocks[0], t
					c.out = cliVal{args: l("--output=" + o), s: filepath.Clean(o)}
					many(c)
					c.old, c.circle = true, circles[1-k]
					many(c)
				}
			}
			for _, o := range fileNames() {
				// names that are no file of the scratch directory are not for this space
				if c := filepath.Clean(o); o == "" || strings.ContainsRune(o, 0) || strings.HasPrefix(o, "/") || strings.Contains(o, "ROOT") || strings.HasSuffix(o, "/") || strings.HasPrefix(c, "..") && (len(c) == 2 || c[2] == '/') || c == "." || c == "sub" || len(filepath.Base(c)) > 255 || filepath.Dir(c) != "." && filepath.Dir(c) != "sub" || strings.Contains(o, "/../") {
					continue
				}
				c := base
				c.block = blocks[0]
				c.out = cliVal{args: l("-o", o), s: filepath.Clean(o)}
				many(c)
				c.out.args = l("-output=" + o)
				c.transp = transps[1]
				many(c)
			}
			// refusals
			ctx := func(f func(o, bl, bo, ci, tr, h cliVal, old bool)) {
				for _, o := range outs {
					for _, bl := range []cliVal{blocks[0], blocks[1]} {
						for _, h := range halfs {
							for k := 0; k < 2; k++ {
								if !th && (h.val+k > 1 || bl.val == 7 && k == 1) {
									continue
								}
								for m := 0; m < 4; m++ {
									if th || m == 0 {
										f(o, bl, borders[m%2*2], circles[m/2], transps[m%2], h, k == 1)
									}
								}
							}
						}
					}
				}
			}
			var bads []cliCase
			for _, v := range []string{"256", "257", "261", "65536", "4294967301", "18446744073709551616", "-1", "abc", "1.5", "", " 5"} {
				ctx(func(o, bl, bo, ci, tr, h cliVal, old bool) {
					bads = append(bads, cliCase{o, cliVal{args: l("-s", v), bad: "value"}, bo, ci, tr, h, texts[0], old, false})
				})
			}
			for _, v := range []string{"", "0", "0,0", "1,2,3", "1,2,3,4,5", "0,0,0,0,", ",0,0,0", "256,0,0,0", "0,256,0,0", "0,0,256,0", "0,0,0,256", "-1,0,0,0", "0,0,0,-1", "a,b,c,d", "1,2,3,x", " 1,2,3,4", "1, 2,3,4", "1;2;3;4", "1.0,2,3,4", "0,0,0,99999999999999999999", "0x1,0,0,0", "+1,0,0,0"} {
				ctx(func(o, bl, bo, ci, tr, h cliVal, old bool) {
					bads = append(bads, cliCase{o, bl, cliVal{args: l("-b", v), bad: "value"}, ci, tr, h, texts[0], old, false})
				})
			}
			for _, t := range []string{strings.Repeat("x", 3000), strings.Repeat("9", 8000), strings.Repeat("漢", 2000)} {
				ctx(func(o, bl, bo, ci, tr, h cliVal, old bool) {
					bads = append(bads, cliCase{o, bl, bo, ci, tr, h, cliVal{args: l(t), s: t, bad: "value"}, old, false})
				})
			}
			if _, err := qrcode.New(""); err != nil {
				for _, a := range [][]string{nil, {""}} {
					ctx(func(o, bl, bo, ci, tr, h cliVal, old bool) {
						bads = append(bads, cliCase{o, bl, bo, ci, tr, h, cliVal{args: a, bad: "value"}, old, false})
					})
				}
			}
			for _, f := range []string{"-m", "--nosuch", "--circle=maybe", "-transparent=2", "--terminal=x", "--terminal"} {
				ctx(func(o, bl, bo, ci, tr, h cliVal, old bool) {
					bads = append(bads, cliCase{o, bl, bo, ci, cliVal{args: l(f), bad: "value"}, h, texts[0], old, false})
				})
			}
			for _, o := range []string{"missing/a.png", "d.png", "sub", "full.png", "full.jpg", "", "not-a-picture/x.png", strings.Repeat("n", 300) + ".png", "sub/"} {
				ctx(func(first, bl, bo, ci, tr, h cliVal, old bool) {
					if !old && first.s == outs[0].s {
						bads = append(bads, cliCase{cliVal{args: l("-o", o), s: "\x00", bad: "run"}, bl, bo, ci, tr, h, texts[0], false, false})
					}
				})
			}
			return outside([]*eng.Space{
				{Name: "command lines", N: prod(len(outs), len(blocks), len(borders), 2, 2, 2, len(texts)), Run: func(i int64) eng.Out { return good(i).run() }, Desc: func(i int64) string { return good(i).String() }},
				list("existing files", old, cliCase.run, cliCase.String),
				list("single", single, cliCase.run, cliCase.String),
				list("values of one flag", more, cliCase.run, cliCase.String),
				list("refusals", bads, cliCase.run, cliCase.String),
			})
		},
	})
}
