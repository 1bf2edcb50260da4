package props

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/imgkit"
	"github.com/yeqown/go-qrcode/writer/standard/shapes"
)

// history is what operations of one process leave behind.
type history struct {
	codes []*qrcode.QRCode // made so far
	from  []int            // position of the operation that made the code
	pos   int
}

func (h *history) keep(q *qrcode.QRCode) {
	h.codes = append(h.codes, q)
	h.from = append(h.from, h.pos)
}

// histOp is one operation; its result must not depend on the history.
type histOp struct {
	name string
	f    func(h *history) string
}

func symText(q *qrcode.QRCode) string {
	s, err := qr.Of(q)
	if err != nil {
		return "save error: " + err.Error()
	}
	return fmt.Sprintf("v%d %x", (s.N-17)/4, hashSym(s))
}

func opEncode(name, text string, o ...qrcode.EncodeOption) histOp {
	return histOp{"encode " + name, func(h *history) string {
		q, err := qrcode.NewWith(text, o...)
		if err != nil {
			return "error: " + err.Error()
		}
		h.keep(q)
		return symText(q)
	}}
}

// opBytes changes the caller's bytes after New and before Save.
func opBytes(name string, text []byte, o ...qrcode.EncodeOption) histOp {
	return histOp{"bytes " + name, func(h *history) string {
		b := append([]byte(nil), text...)
		q, err := qrcode.NewWith(b, o...)
		if err != nil {
			return "error: " + err.Error()
		}
		for i := range b {
			b[i] = '0' + byte(i%2)
		}
		h.keep(q)
		return symText(q)
	}}
}

func opSave(name, text string, enc []qrcode.EncodeOption, mk func(io.WriteCloser) qrcode.Writer) histOp {
	return histOp{"save " + name, func(h *history) string {
		q, err := qrcode.NewWith(text, enc...)
		if err != nil {
			return "error: " + err.Error()
		}
		h.keep(q)
		var s sink
		err, pan := saveCatch(q, mk(&s))
		if pan != nil {
			return fmt.Sprintf("panic: %v", pan)
		}
		if err != nil {
			return "save error: " + err.Error()
		}
		return fmt.Sprintf("%d bytes %x", s.Len(), hashBytes(s.Bytes()))
	}}
}

// imgSets are sets of picture options, built anew on every call.
type imgSet struct {
	name string
	mk   func() []standard.ImageOption
}

func noisePic(k, w, h int) image.Image {
	m := image.NewNRGBA(image.Rect(0, 0, w, h))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			m.SetNRGBA(x, y, color.NRGBA{uint8(x*37 + y*11 + k*50), uint8(x*5 + y*71), uint8(x * y), uint8(255 - k*20)})
		}
	}
	return m
}

func gradOf(k int) *standard.LinearGradient {
	return standard.NewGradient(float64(k*45), standard.ColorStop{T: 0.9, Color: color.RGBA{0, 0, 200, 255}}, standard.ColorStop{T: 0, Color: color.RGBA{200, 0, 0, 255}}, standard.ColorStop{T: 0.5, Color: color.RGBA{0, 90, 0, 255}})
}

func imgSets() []imgSet {
	type o = standard.ImageOption
	s := func(name string, mk func() []o) imgSet { return imgSet{name, mk} }
	one := func(name string, f func() o) imgSet { return imgSet{name, func() []o { return []o{f()} }} }
	return []imgSet{
		s("plain", func() []o { return nil }),
		one("transparent", func() o { return standard.WithBgTransparent() }),
		one("circles", func() o { return standard.WithCircleShape() }),
		one("narrow blocks", func() o { return standard.WithQRWidth(1) }),
		one("wide blocks", func() o { return standard.WithQRWidth(9) }),
		one("one border", func() o { return standard.WithBorderWidth(7) }),
		one("four borders", func() o { return standard.WithBorderWidth(1, 2, 3, 4) }),
		one("no border", func() o { return standard.WithBorderWidth(0) }),
		one("default borders", func() o { return standard.WithBorderWidth() }),
		one("red", func() o { return standard.WithFgColorRGBHex("#f00") }),
		one("yellow ground", func() o { return standard.WithBgColor(color.RGBA{250, 240, 0, 255}) }),
		s("blue on pink, transparent", func() []o {
			return []o{standard.WithFgColor(color.RGBA{0, 0, 250, 255}), standard.WithBgColorRGBHex("#ffc0cb"), standard.WithBgTransparent()}
		}),
		one("gradient 0", func() o { return standard.WithFgGradient(gradOf(0)) }),
		one("gradient 45", func() o { return standard.WithFgGradient(gradOf(1)) }),
		s("gradient on transparent circles", func() []o {
			return []o{standard.WithFgGradient(gradOf(2)), standard.WithBgTransparent(), standard.WithCircleShape()}
		}),
		one("logo", func() o { return standard.WithLogoImage(noisePic(0, 9, 9)) }),
		one("translucent logo", func() o { return standard.WithLogoImage(noisePic(3, 12, 5)) }),
		s("logo with safe zone", func() []o {
			return []o{standard.WithLogoImage(noisePic(1, 11, 12)), standard.WithLogoSafeZone()}
		}),
		s("logo that fits version 2 only", func() []o {
			return []o{standard.WithLogoImage(noisePic(2, 20, 20)), standard.WithLogoSafeZone()}
		}),
		s("large logo", func() []o {
			return []o{standard.WithLogoImage(noisePic(1, 40, 40)), standard.WithLogoSafeZone(), standard.WithLogoSizeMultiplier(2)}
		}),
		one("safe zone without logo", func() o { return standard.WithLogoSafeZone() }),
		one("halftone", func() o { return standard.WithHalftoneImage(noisePic(0, 30, 20)) }),
		s("transparent halftone", func() []o {
			return []o{standard.WithHalftoneImage(noisePic(2, 8, 8)), standard.WithBgTransparent()}
		}),
		one("missing halftone", func() o { return standard.WithHalftone("/nonexistent/file.png") }),
		one("missing logo", func() o { return standard.WithLogoImageFilePNG("/nonexistent/file.png") }),
		one("liquid", func() o {
			return standard.WithCustomShape(shapes.Assemble(shapes.RoundedFinder(), shapes.LiquidBlock()))
		}),
		one("chain", func() o {
			return standard.WithCustomShape(shapes.Assemble(shapes.SquareFinder(), shapes.ChainBlock()))
		}),
		one("stripes", func() o {
			return standard.WithCustomShape(shapes.Assemble(shapes.RoundedFinder(), shapes.HStripeBlock(0.7)))
		}),
		s("vertical chain with logo safe zone", func() []o {
			return []o{standard.WithCustomShape(shapes.Assemble(shapes.RoundedFinder(), shapes.VChainBlock())), standard.WithLogoImage(noisePic(0, 11, 11)), standard.WithLogoSafeZone()}
		}),
		s("everything", func() []o {
			return []o{standard.WithQRWidth(4), standard.WithBorderWidth(3, 5), standard.WithBgTransparent(), standard.WithFgColorRGBHex("#123"),
				standard.WithLogoImage(noisePic(0, 9, 9)), standard.WithLogoSafeZone(), standard.WithHalftoneImage(noisePic(1, 25, 25)), standard.WithFgGradient(gradOf(3))}
		}),
	}
}

func pngOut(o []standard.ImageOption) []standard.ImageOption {
	return append([]standard.ImageOption{standard.WithQRWidth(3), standard.WithBorderWidth(2), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT)}, o...)
}

var histOps = sync.OnceValue(func() (out []histOp) {
	add := func(o histOp) { out = append(out, o) }
	lv := func(l int, o ...qrcode.EncodeOption) []qrcode.EncodeOption {
		return append([]qrcode.EncodeOption{qr.EC[l]}, o...)
	}
	// encodes: every mode, level and a spread of versions, chosen or searched for
	add(opEncode("default", "hello"))
	add(opEncode("digits", "0123456789", lv(0)...))
	add(opEncode("alphanumeric", "HELLO WORLD $%", lv(1)...))
	add(opEncode("kanji", "漢字日本", lv(2)...))
	add(opEncode("bytes", "some bytes, \xff", lv(3)...))
	for i, v := range []int{1, 2, 6, 7, 9, 10, 14, 20, 26, 27, 32, 36, 40} {
		m, t := textFor(v, i%4, i)
		add(opEncode(fmt.Sprintf("version %d level %d full", v, i%4), t, lv(i%4, qr.Ver(v), qr.Mode[m])...))
		add(opEncode(fmt.Sprintf("version %d level %d short", v, (i+1)%4), "1A"[:1+i%2], lv((i+1)%4, qr.Ver(v))...))
	}
	for _, n := range []int{17, 18, 150, 900, 2000} {
		add(opEncode(fmt.Sprintf("automatic, %d bytes", n), fill(ref.Byte, n, n), lv(0)...))
	}
	add(opEncode("minimum version 5", "X", lv(1, qrcode.WithMinimumVersion(5))...))
	add(opEncode("byte mode", "12345", lv(1, qr.Mode[ref.Byte])...))
	add(opEncode("alphanumeric mode of digits", "12345", lv(1, qr.Mode[ref.Alnum])...))
	// characters that agree in their low 8 or 16 bits
	for _, r := range []rune{'0', 'A', 0x4e30, 0x4e41, 0x4e9c, 0x14e9c, 0x24e9c} {
		add(opEncode(fmt.Sprintf("character %U", r), string(r), lv(1)...))
	}
	// failing encodes
	add(opEncode("not numeric", "12a", qr.Mode[ref.Numeric]))
	add(opEncode("not kanji", "abc", qr.Mode[ref.Kanji]))
	add(opEncode("too long", fill(ref.Byte, 3000, 1)))
	add(opEncode("too long for version 3", fill(ref.Byte, 300, 1), lv(3, qr.Ver(3))...))
	add(opEncode("no text", ""))
	add(opEncode("no version 41", "x", qr.Ver(41)))
	// the caller's bytes
	add(opBytes("digits", []byte("9876543210"), lv(0)...))
	add(opBytes("alphanumeric", []byte("QRCODE: 1/2"), lv(1)...))
	add(opBytes("byte", []byte("lower case \x00\xff"), lv(2)...))
	add(opBytes("kanji", []byte("漢字"), lv(3)...))
	add(opBytes("version 7", []byte("changed later"), lv(1, qr.Ver(7))...))
	// pictures
	for i, s := range imgSets() {
		add(opSave(s.name, "picture", lv(i%4, qr.Ver(1+i%3)), func(w io.WriteCloser) qrcode.Writer { return standard.NewWithWriter(w, pngOut(s.mk())...) }))
	}
	add(opSave("default JPEG", "jpeg", lv(0), func(w io.WriteCloser) qrcode.Writer { return standard.NewWithWriter(w) }))
	add(opSave("own encoder", "own", lv(0), func(w io.WriteCloser) qrcode.Writer {
		return standard.NewWithWriter(w, standard.WithCustomImageEncoder(ownEnc{}))
	}))
	add(opSave("failing encoder", "own", lv(0), func(w io.WriteCloser) qrcode.Writer {
		return standard.NewWithWriter(w, standard.WithCustomImageEncoder(errEnc{}))
	}))
	add(opSave("failing stream", "own", lv(0), func(w io.WriteCloser) qrcode.Writer {
		return standard.NewWithWriter(&faulty{left: 100, call: -1}, standard.WithQRWidth(2))
	}))
	add(opSave("bad colour", "own", lv(0), func(w io.WriteCloser) qrcode.Writer {
		return standard.NewWithWriter(w, standard.WithBgColorRGBHex("#12345"))
	}))
	add(opSave("compressed", "compressed", lv(0), func(w io.WriteCloser) qrcode.Writer {
		return compressed.NewWithWriter(w, &compressed.Option{BlockSize: 3, Padding: 1})
	}))
	add(opSave("panicking writer", "x", lv(0), func(io.WriteCloser) qrcode.Writer { return &scripted{w: 8} }))
	add(opSave("failing writer", "x", lv(0), func(io.WriteCloser) qrcode.Writer { return &scripted{w: 1, c: 1} }))
	add(opSave("nil writer", "x", lv(0), func(io.WriteCloser) qrcode.Writer { return nil }))
	add(opSave("writer that changes what it gets", "x", lv(0), func(io.WriteCloser) qrcode.Writer { return changer{} }))
	add(opSave("unset text file", "x", lv(0), func(io.WriteCloser) qrcode.Writer { return file.New(nil) }))
	add(histOp{"save text file", func(h *history) string {
		q, err := qrcode.NewWith("text file", lv(1)...)
		if err != nil {
			return "error: " + err.Error()
		}
		h.keep(q)
		return viaFile("t.txt", func(name string) error {
			f, err := os.Create(name)
			if err != nil {
				return err
			}
			defer f.Close()
			return q.Save(file.New(f))
		})
	}})
	add(histOp{"save picture file", func(h *history) string {
		q, err := qrcode.NewWith("picture file", lv(2)...)
		if err != nil {
			return "error: " + err.Error()
		}
		h.keep(q)
		return viaFile("p.jpg", func(name string) error {
			w, err := standard.New(name, standard.WithQRWidth(2))
			if err != nil {
				return err
			}
			return q.Save(w)
		})
	}})
	add(histOp{"image helpers", func(h *history) string {
		return viaFile("i.png", func(name string) error {
			m := noisePic(0, 13, 9)
			m = imgkit.Scale(imgkit.Binaryzation(imgkit.Gray(m), 100), image.Rect(0, 0, 20, 20), nil)
			return imgkit.Save(m, name)
		})
	}})
	return
})

// changer changes everything it may.
type changer struct{}

func (changer) Close() error { return nil }
func (changer) Write(m qrcode.Matrix) error {
	b := m.Bitmap()
	for y := range b {
		for x := range b[y] {
			b[y][x] = !b[y][x]
		}
		r := m.Row(y)
		for x := range r {
			r[x] = qrcode.QRValue_INIT_V0
		}
	}
	c := m.Copy()
	for x := 0; x < c.Width(); x++ {
		l := c.Col(x)
		for y := range l {
			l[y] = qrcode.QRValue_DARK_V1
		}
	}
	return nil
}

func viaFile(name string, f func(string) error) string {
	dir, done := tempDir()
	defer done()
	name = filepath.Join(dir, name)
	if err := f(name); err != nil {
		return "error: " + strings.ReplaceAll(err.Error(), dir, "DIR")
	}
	b, err := os.ReadFile(name)
	if err != nil {
		return "error: " + strings.ReplaceAll(err.Error(), dir, "DIR")
	}
	return fmt.Sprintf("%d bytes %x", len(b), hashBytes(b))
}

type histRes struct {
	Res   []string
	Again []string // the codes saved again at the end
	From  []int
}

func runHist(ops []int) histRes {
	var h history
	var r histRes
	all := histOps()
	firsts := map[int]string{}
	for i, k := range ops {
		h.pos = i
		n := len(h.codes)
		res := func() (s string) {
			defer func() {
				if e := recover(); e != nil {
					s = fmt.Sprintf("panic: %v", e)
				}
			}()
			return all[k].f(&h)
		}()
		r.Res = append(r.Res, res)
		for _, q := range h.codes[n:] {
			firsts[len(firsts)] = symText(q)
		}
	}
	for i, q := range h.codes {
		// saved after every later operation, it is still the code it was; an odd and an even number of saves
		a, b := symText(q), symText(q)
		if a != firsts[i] || b != a {
			a = fmt.Sprintf("%s, then %s, then %s", firsts[i], a, b)
		} else {
			a = ""
		}
		r.Again = append(r.Again, a)
		r.From = append(r.From, h.from[i])
	}
	return r
}

func init() {
	helpers["hist"] = func(args []string) any { return runHist(intArgs(args[0])) }
}

var (
	histMu    sync.Mutex
	histFresh = map[int]string{}
)

// freshRes is what an operation gives in a process of its own.
func freshRes(k int) (string, error) {
	histMu.Lock()
	defer histMu.Unlock()
	if s, ok := histFresh[k]; ok {
		return s, nil
	}
	var r histRes
	if _, err := runHelper("hist", "", nil, &r, argInts([]int{k})); err != nil {
		return "", err
	}
	histFresh[k] = r.Res[0]
	return r.Res[0], nil
}

func histNames(ops []int) string {
	var n []string
	for _, k := range ops {
		n = append(n, histOps()[k].name)
	}
	s := strings.Join(n, "; ")
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

func histCase(ops []int) eng.Out {
	var r histRes
	if _, err := runHelper("hist", "", nil, &r, argInts(ops)); err != nil {
		return eng.V("%v", err)
	}
	if len(r.Res) != len(ops) {
		return eng.V("%d results for %d operations", len(r.Res), len(ops))
	}
	for i, k := range ops {
		want, err := freshRes(k)
		if err != nil {
			return eng.V("%v", err)
		}
		if r.Res[i] != want {
			from := max(0, i-4)
			return eng.V("operation %d (%s) gives %q; in a process of its own it gives %q; before it: %s", i, histOps()[k].name, r.Res[i], want, histNames(ops[from:i]))
		}
	}
	for i, a := range r.Again {
		if a != "" {
			return eng.V("the code made by operation %d (%s) changes when it is saved again: %s", r.From[i], histOps()[ops[r.From[i]]].name, a)
		}
	}
	return eng.Out{Key: argInts(ops), Extra: map[string]int64{"operations": int64(len(ops)), "codes_saved_again": int64(len(r.Again))}}
}

// deBruijn is a sequence over k letters in which every word of length n occurs once, as a walk (not a circle).
func deBruijn(k, n int) (out []int) {
	a := make([]int, k*n)
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				out = append(out, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return append(out, out[:n-1]...)
}

// Reuse of option values and writers within a process.

type reuseStep struct {
	code   int // which code
	writer int // 0: the first writer object, 1: a second writer object made from the same options
}

type reuseCase struct {
	set   int
	steps []reuseStep
	out   int // 0: own encoder, 1: PNG, 2: JPEG
}

func (c reuseCase) String() string {
	s := fmt.Sprintf("options %q, %s:", imgSets()[c.set].name, []string{"image", "PNG", "JPEG"}[c.out])
	for _, t := range c.steps {
		s += fmt.Sprintf(" code %d with writer %d;", t.code, t.writer)
	}
	return s
}

// imgBytes is a writer that the standard writer can write to any number of times.
type reuseOut struct {
	sink
	e capEnc
}

func (r *reuseOut) writer(out int, o []standard.ImageOption) *standard.Writer {
	o = append([]standard.ImageOption{standard.WithQRWidth(4), standard.WithBorderWidth(3)}, o...)
	switch out {
	case 0:
		o = append(o, standard.WithCustomImageEncoder(&r.e))
	case 1:
		o = append(o, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	}
	return standard.NewWithWriter(r, o...)
}

func (r *reuseOut) take(out int) string {
	if out == 0 {
		if r.e.n != 1 {
			return fmt.Sprint("encoder calls: ", r.e.n)
		}
		r.e.n = 0
		m := toRGBA(r.e.img)
		return fmt.Sprintf("%v %x", m.Rect, hashBytes(m.Pix))
	}
	s := fmt.Sprintf("%d %x", r.Len(), hashBytes(r.Bytes()))
	r.Reset()
	return s
}

var reuseWant sync.Map

func (c reuseCase) run() eng.Out {
	var cs [3]*coded
	for i, k := range [][3]int{{1, 2, 0}, {2, 3, 1}, {1, 0, 2}} {
		cs[i] = codeFor(k[0], k[1], k[2])
	}
	want := func(code int) (string, error) {
		key := [3]int{c.set, code, c.out}
		if v, ok := reuseWant.Load(key); ok {
			return v.(string), nil
		}
		var r reuseOut
		m, t := textFor([3]int{1, 2, 1}[code], [3]int{2, 3, 0}[code], code)
		q, err := qrcode.NewWith(t, qr.Ver([3]int{1, 2, 1}[code]), qr.EC[[3]int{2, 3, 0}[code]], qr.Mode[m])
		if err != nil {
			return "", err
		}
		if err := q.Save(r.writer(c.out, imgSets()[c.set].mk())); err != nil {
			return "", err
		}
		s := r.take(c.out)
		reuseWant.Store(key, s)
		return s, nil
	}
	opts := imgSets()[c.set].mk()
	var rs [2]reuseOut
	var ws [2]*standard.Writer
	for i, st := range c.steps {
		if ws[st.writer] == nil {
			ws[st.writer] = rs[st.writer].writer(c.out, opts)
		}
		if err := cs[st.code].q.Save(ws[st.writer]); err != nil {
			return eng.V("save %d: %v", i, err)
		}
		got := rs[st.writer].take(c.out)
		w, err := want(st.code)
		if err != nil {
			return eng.V("%v", err)
		}
		if got != w {
			return eng.V("save %d gives %s; with new options and a new code %s", i, got, w)
		}
	}
	for _, k := range cs {
		s, err := qr.Of(k.q)
		if err != nil || !bytes.Equal(bits(s), bits(k.sym)) {
			return eng.V("a code changed (error %v)", err)
		}
	}
	return eng.K("%v", c)
}

// Objects that callers pass in stay as they are and are not kept.

func callerCase(set int) eng.Out {
	clone := func(m image.Image) *image.RGBA64 {
		c := image.NewRGBA64(m.Bounds())
		draw.Draw(c, c.Rect, m, m.Bounds().Min, draw.Src)
		return c
	}
	for k := 0; k < 6; k++ {
		logo := logoPic(set%4, 9, 9)
		half := noisePic(k, 20, 30)
		g := gradOf(k)
		b, hb := clone(logo), clone(half)
		stops := append([]standard.ColorStop(nil), g.Stops...)
		ang := g.Angle
		c := codeFor(1+k%3, k%4, k)
		var r reuseOut
		o := []standard.ImageOption{standard.WithLogoImage(logo), standard.WithLogoSafeZone(), standard.WithFgGradient(g)}
		if k%2 == 1 {
			o = append(o, standard.WithHalftoneImage(half), standard.WithBgTransparent())
		}
		w := r.writer(0, o)
		for i := 0; i < 2; i++ {
			if err := c.q.Save(w); err != nil {
				return eng.V("%v", err)
			}
			r.take(0)
		}
		if !bytes.Equal(b.Pix, clone(logo).Pix) || !bytes.Equal(hb.Pix, clone(half).Pix) {
			return eng.V("saving changed the caller's image (try %d)", k)
		}
		if len(stops) != len(g.Stops) || ang != g.Angle {
			return eng.V("saving changed the caller's gradient (try %d)", k)
		}
		for i := range stops {
			if stops[i] != g.Stops[i] {
				return eng.V("saving changed stop %d of the caller's gradient (try %d)", i, k)
			}
		}
	}
	return eng.K("%d", set)
}

// encReuse: one list of encode options for several texts, in any order.
type encReuse struct {
	opts int
	seq  []int
}

var encReuseTexts = []string{"12345", "ABC", "abc", "漢字", "a much longer text that does not fit version two", ""}

func encReuseOpts(k int) []qrcode.EncodeOption {
	switch k {
	case 0:
		return nil
	case 1:
		return []qrcode.EncodeOption{qr.EC[3]}
	case 2:
		return []qrcode.EncodeOption{qr.Ver(2)}
	case 3:
		return []qrcode.EncodeOption{qr.Mode[ref.Byte], qr.EC[0]}
	case 4:
		return []qrcode.EncodeOption{qrcode.WithMinimumVersion(6), qr.EC[2]}
	case 5:
		return []qrcode.EncodeOption{qrcode.WithEncodingMode(qrcode.EncModeAuto), qrcode.WithMinimumVersion(2)}
	case 6:
		return []qrcode.EncodeOption{qr.Mode[ref.Numeric]}
	}
	return []qrcode.EncodeOption{qr.Mode[ref.Kanji], qr.Ver(10), qr.EC[1]}
}

const nEncReuse = 8

func (c encReuse) run() eng.Out {
	res := func(t string, o []qrcode.EncodeOption) string {
		s, err := qr.Encode(t, o...)
		if err != nil {
			return "error: " + err.Error()
		}
		return fmt.Sprintf("v%d %x", (s.N-17)/4, hashSym(s))
	}
	shared := encReuseOpts(c.opts)
	for i, k := range c.seq {
		t := encReuseTexts[k]
		got, want := res(t, shared), res(t, encReuseOpts(c.opts))
		if got != want {
			return eng.V("call %d gives %s with reused options and %s with new ones", i, got, want)
		}
	}
	return eng.K("%v", c)
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C09", Level: "exploration",
		Rule: "one history of operations run in a process of its own per case; every operation's result (symbol, error text, or all bytes written) is compared with the same operation's result as the only operation of a process, and every code made is saved again at the end. Reuse cases compare pictures made with reused options, writers and codes with pictures made with new ones. Distinct by history.",
		Assumptions: []string{
			"an operation's result in a fresh process is right in itself (other properties check that)",
		},
		Bounds: map[string]string{
			"quick":    "all ordered pairs of the operations (about 100: encodes of all modes, levels and 13 versions, characters equal in their low bits, failing encodes, saves with 31 option sets and every writer, failing saves, image helpers) in processes of their own, one tour through all pairs, all triples of 14 operations; reuse of 31 option sets over all sequences of 3 saves (3 codes, 2 writers) and 2 outputs; 8 encode option lists over all sequences of 4 texts",
			"thorough": "all triples of 40 operations, all quadruples of 10, tours through all triples of 24; sequences of 4 saves",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			n := len(histOps())
			pick := func(k int) (out []int) { // k operations spread over the list
				for i := 0; i < k; i++ {
					out = append(out, i*n/k)
				}
				return
			}
			hs := func(name string, total int64, mk func(i int64) []int) *eng.Space {
				return &eng.Space{Name: name, N: total, Run: func(i int64) eng.Out { return histCase(mk(i)) }, Desc: func(i int64) string {
					return fmt.Sprintf("a process that does: %s", histNames(mk(i)))
				}}
			}
			power := func(set []int, l int) (int64, func(i int64) []int) {
				total := int64(1)
				for i := 0; i < l; i++ {
					total *= int64(len(set))
				}
				return total, func(i int64) []int {
					out := make([]int, l)
					for j := l - 1; j >= 0; j-- {
						out[j] = set[i%int64(len(set))]
						i /= int64(len(set))
					}
					return out
				}
			}
			every := pick(n)
			n2, f2 := power(every, 2)
			t3, q4 := 14, 4
			tours := [][]int{}
			// the tour through all pairs is cut into pieces that overlap by one operation
			cut := func(seq []int, set []int, size, overlap int) {
				for i := 0; i < len(seq)-overlap; i += size {
					var p []int
					for _, k := range seq[i:min(len(seq), i+size+overlap)] {
						p = append(p, set[k])
					}
					tours = append(tours, p)
				}
			}
			cut(deBruijn(n, 2), every, 1500, 1)
			if th {
				t3, q4 = 40, 10
				cut(deBruijn(24, 3), pick(24), 1500, 2)
				cut(deBruijn(9, 4), pick(9), 1500, 3)
			}
			n3, f3 := power(pick(t3), 3)
			n4, f4 := power(pick(q4), 4)
			ns, l := len(imgSets()), 3
			if th {
				l = 4
			}
			var seqs [][]reuseStep
			for i := int64(0); ; i++ {
				w := word(i, 6)
				if len(w) > l {
					break
				}
				var s []reuseStep
				for _, k := range w {
					s = append(s, reuseStep{k / 2, k % 2})
				}
				if len(s) == l {
					seqs = append(seqs, s)
				}
			}
			ru := func(i int64) reuseCase {
				c := combo(i, ns, len(seqs), 2)
				return reuseCase{c[0], seqs[c[1]], c[2]}
			}
			var er []encReuse
			for o := 0; o < nEncReuse; o++ {
				for i := int64(0); ; i++ {
					w := word(i, len(encReuseTexts))
					if len(w) > l+1 {
						break
					}
					er = append(er, encReuse{o, w})
				}
			}
			return []*eng.Space{
				hs("pairs", n2, f2),
				hs("triples", n3, f3),
				hs("quadruples", n4, f4),
				{Name: "tours", N: int64(len(tours)), Chunk: 1, Limit: 300, Run: func(i int64) eng.Out { return histCase(tours[i]) }, Desc: func(i int64) string {
					return fmt.Sprintf("a process that does: %s", histNames(tours[i]))
				}},
				{Name: "reused options and writers", N: prod(ns, len(seqs), 2), Run: func(i int64) eng.Out { return ru(i).run() }, Desc: func(i int64) string { return ru(i).String() }},
				list("reused encode options", er, encReuse.run, func(c encReuse) string {
					return fmt.Sprintf("options %d, texts %v", c.opts, c.seq)
				}),
				list("caller's objects", []int{0, 1, 2, 3}, callerCase, func(k int) string { return fmt.Sprint("logo kind ", k) }),
			}
		},
	})
}
