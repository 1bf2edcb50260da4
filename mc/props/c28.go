package props

import (
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"verif.local/mc/eng"

	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/shapes"
)

// woAtom is one option of the standard writer; atoms of one kind replace each other.
type woAtom struct {
	name    string
	kind    int
	ignored bool // has no effect, an earlier one stays in force
	opt     standard.ImageOption
}

const (
	woBg = iota
	woTransp
	woFg
	woGrad
	woLogo
	woWidth
	woShape
	woEnc
	woBorder
	woHalf
	woMult
	woSafe
	woKinds
)

type rawEnc struct{}

func (rawEnc) Encode(w io.Writer, m image.Image) error {
	b := m.Bounds()
	if _, err := fmt.Fprintf(w, "RAW %v\n", b); err != nil {
		return err
	}
	_, err := w.Write(toRGBA(m).Pix)
	return err
}

var woOnce sync.Once
var woList []woAtom

// woAtoms makes the options (and the picture files some of them read) once.
func woAtoms() []woAtom {
	woOnce.Do(func() {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_BIN"), "opt")
		if err != nil {
			panic(err)
		}
		file := func(name string, enc func(w io.Writer) error, cut int) string {
			p := filepath.Join(dir, name)
			var s sink
			if err := enc(&s); err != nil {
				panic(err)
			}
			b := s.Bytes()
			if cut > 0 {
				b = b[:cut]
			}
			if err := os.WriteFile(p, b, 0o600); err != nil {
				panic(err)
			}
			return p
		}
		pic := func(k int) image.Image { return picOf(1, k, image.Rect(0, 0, 9-k, 6+k)) }
		half, _ := halfPic(0, 6, 21)
		asPNG := func(m image.Image) func(io.Writer) error {
			return func(w io.Writer) error { return png.Encode(w, m) }
		}
		asJPEG := func(m image.Image) func(io.Writer) error {
			return func(w io.Writer) error { return jpeg.Encode(w, m, nil) }
		}
		goodPNG := file("logo.png", asPNG(pic(0)), 0)
		goodJPEG := file("logo.jpg", asJPEG(pic(1)), 0)
		cutPNG := file("cut.png", asPNG(pic(0)), 60)
		cutJPEG := file("cut.jpg", asJPEG(pic(1)), 200)
		halfPNG := file("half.png", asPNG(half), 0)
		empty := file("empty.png", func(io.Writer) error { return nil }, 0)
		g1 := standard.NewGradient(30, stopSets[0]...)
		g2 := standard.NewGradient(200, stopSets[4]...)
		a := func(name string, kind int, o standard.ImageOption, ignored ...bool) {
			woList = append(woList, woAtom{name, kind, len(ignored) > 0, o})
		}
		a("BgColor(#102030)", woBg, standard.WithBgColor(color.RGBA{16, 32, 48, 255}))
		a("BgColorRGBHex(#0f0)", woBg, standard.WithBgColorRGBHex("#0f0"))
		a("BgColor(nil)", woBg, standard.WithBgColor(nil), true)
		a("BgColorRGBHex()", woBg, standard.WithBgColorRGBHex(""), true)
		a("BgTransparent", woTransp, standard.WithBgTransparent())
		a("FgColor(#c80028)", woFg, standard.WithFgColor(color.NRGBA{200, 0, 40, 255}))
		a("FgColorRGBHex(#000)", woFg, standard.WithFgColorRGBHex("#000"))
		a("FgColor(nil)", woFg, standard.WithFgColor(nil), true)
		a("FgGradient(1)", woGrad, standard.WithFgGradient(g1))
		a("FgGradient(2)", woGrad, standard.WithFgGradient(g2))
		a("FgGradient(nil)", woGrad, standard.WithFgGradient(nil), true)
		a("FgGradient(no stops)", woGrad, standard.WithFgGradient(&standard.LinearGradient{Angle: 9}), true)
		a("LogoImage", woLogo, standard.WithLogoImage(pic(2)))
		a("LogoImage(large)", woLogo, standard.WithLogoImage(picOf(1, 0, image.Rect(0, 0, 40, 30))))
		a("LogoImage(nil)", woLogo, standard.WithLogoImage(nil), true)
		a("LogoImageFilePNG", woLogo, standard.WithLogoImageFilePNG(goodPNG))
		a("LogoImageFileJPEG", woLogo, standard.WithLogoImageFileJPEG(goodJPEG))
		a("LogoImageFilePNG(missing)", woLogo, standard.WithLogoImageFilePNG(dir+"/none.png"), true)
		a("LogoImageFileJPEG(a PNG)", woLogo, standard.WithLogoImageFileJPEG(goodPNG), true)
		a("LogoImageFilePNG(a JPEG)", woLogo, standard.WithLogoImageFilePNG(goodJPEG), true)
		a("LogoImageFilePNG(cut)", woLogo, standard.WithLogoImageFilePNG(cutPNG), true)
		a("LogoImageFileJPEG(cut)", woLogo, standard.WithLogoImageFileJPEG(cutJPEG), true)
		a("LogoImageFilePNG(directory)", woLogo, standard.WithLogoImageFilePNG(dir), true)
		a("QRWidth(3)", woWidth, standard.WithQRWidth(3))
		a("QRWidth(6)", woWidth, standard.WithQRWidth(6))
		a("QRWidth(0)", woWidth, standard.WithQRWidth(0))
		a("CircleShape", woShape, standard.WithCircleShape())
		a("CustomShape(inset)", woShape, standard.WithCustomShape(insetShape{}))
		a("CustomShape(chain)", woShape, standard.WithCustomShape(shapes.Assemble(shapes.RoundedFinder(), shapes.ChainBlock())))
		a("CustomShape(nil)", woShape, standard.WithCustomShape(nil))
		a("PNG", woEnc, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
		a("JPEG", woEnc, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
		a("CustomImageEncoder", woEnc, standard.WithCustomImageEncoder(rawEnc{}))
		a("CustomImageEncoder(nil)", woEnc, standard.WithCustomImageEncoder(nil), true)
		a("BorderWidth()", woBorder, standard.WithBorderWidth())
		a("BorderWidth(0)", woBorder, standard.WithBorderWidth(0))
		a("BorderWidth(3,5)", woBorder, standard.WithBorderWidth(3, 5))
		a("BorderWidth(1,2,3,4)", woBorder, standard.WithBorderWidth(1, 2, 3, 4))
		a("HalftoneImage", woHalf, standard.WithHalftoneImage(half))
		a("HalftoneImage(nil)", woHalf, standard.WithHalftoneImage(nil))
		a("Halftone(file)", woHalf, standard.WithHalftone(halfPNG))
		a("Halftone(JPEG file)", woHalf, standard.WithHalftone(goodJPEG))
		a("Halftone(missing)", woHalf, standard.WithHalftone(dir+"/none.png"), true)
		a("Halftone(cut)", woHalf, standard.WithHalftone(cutPNG), true)
		a("Halftone(empty)", woHalf, standard.WithHalftone(empty), true)
		a("LogoSizeMultiplier(1)", woMult, standard.WithLogoSizeMultiplier(1))
		a("LogoSizeMultiplier(30)", woMult, standard.WithLogoSizeMultiplier(30))
		a("LogoSafeZone", woSafe, standard.WithLogoSafeZone())
	})
	return woList
}

func woIndex(names ...string) (out []int) {
	for _, n := range names {
		found := false
		for i, a := range woAtoms() {
			if a.name == n {
				out, found = append(out, i), true
			}
		}
		if !found {
			panic(n)
		}
	}
	return
}

// woContexts are options given before the sequence.
var woContexts = []struct {
	name string
	pre  []string
}{
	{"no options", nil},
	{"small blocks", []string{"QRWidth(3)", "BorderWidth(3,5)"}},
	{"small PNG", []string{"QRWidth(3)", "BorderWidth(3,5)", "PNG"}},
	{"logo in a safe zone", []string{"QRWidth(6)", "BorderWidth(3,5)", "PNG", "LogoImage", "LogoSafeZone"}},
	{"everything", []string{"QRWidth(6)", "BorderWidth(1,2,3,4)", "PNG", "BgColor(#102030)", "FgColor(#c80028)", "FgGradient(1)", "LogoImage", "HalftoneImage", "CircleShape", "LogoSizeMultiplier(1)", "LogoSafeZone", "BgTransparent"}},
	{"everything as JPEG", []string{"LogoSafeZone", "LogoSizeMultiplier(1)", "CustomShape(inset)", "Halftone(file)", "LogoImageFilePNG", "FgGradient(2)", "FgColor(#c80028)", "BgColorRGBHex(#0f0)", "BorderWidth(1,2,3,4)", "QRWidth(6)"}},
}

type woCase struct {
	ctx, ver int
	seq      []int // atoms
}

func (c woCase) String() string {
	var l []string
	for _, i := range c.seq {
		l = append(l, woAtoms()[i].name)
	}
	return fmt.Sprintf("version %d, after %s: %s", c.ver, woContexts[c.ctx].name, strings.Join(l, ", "))
}

type woOut struct {
	b   []byte
	err error
}

var woCache sync.Map

func woPaint(ver int, o []standard.ImageOption) (out woOut, attr standard.Attribute) {
	var s sink
	w := standard.NewWithWriter(&s, o...)
	q := codeFor(ver, 1, 0).q
	attr = *w.Attribute(q.Dimension())
	out.err = q.Save(w)
	out.b = append([]byte(nil), s.Bytes()...)
	return
}

func (c woCase) run() eng.Out {
	atoms := woAtoms()
	all := append(woIndex(woContexts[c.ctx].pre...), c.seq...)
	var o []standard.ImageOption
	last := [woKinds]int{}
	for _, i := range all {
		o = append(o, atoms[i].opt)
		if !atoms[i].ignored {
			last[atoms[i].kind] = i + 1
		}
	}
	got, attr := woPaint(c.ver, o)
	if got.err != nil {
		return eng.V("save: %v", got.err)
	}
	type key struct {
		ver  int
		last [woKinds]int
	}
	type val struct {
		woOut
		attr standard.Attribute
	}
	k := key{c.ver, last}
	v, ok := woCache.Load(k)
	if !ok {
		// the last option of each kind, in a fixed order
		var co []standard.ImageOption
		for _, i := range last {
			if i > 0 {
				co = append(co, atoms[i-1].opt)
			}
		}
		w, at := woPaint(c.ver, co)
		if w.err != nil {
			return eng.V("save with one option of each kind: %v", w.err)
		}
		v = val{woOut{b: []byte(fmt.Sprintf("%x %d", hashBytes(w.b), len(w.b)))}, at}
		woCache.Store(k, v)
	}
	want := v.(val)
	if id := fmt.Sprintf("%x %d", hashBytes(got.b), len(got.b)); id != string(want.b) || attr != want.attr {
		var l []string
		for _, i := range last {
			if i > 0 {
				l = append(l, atoms[i-1].name)
			}
		}
		return eng.V("the output (%d bytes, attribute %v) differs from the one with only the last option of each kind: %s (attribute %v)", len(got.b), attr, strings.Join(l, ", "), want.attr)
	}
	return eng.K("%s", want.b)
}

// woSeqs is the space of all sequences of a length after a context.
func woSeqs(name string, ctx, ver, depth int, atoms []int) *eng.Space {
	r := make([]int, depth)
	for i := range r {
		r[i] = len(atoms)
	}
	at := func(i int64) woCase {
		c := woCase{ctx: ctx, ver: ver}
		for _, k := range combo(i, r...) {
			c.seq = append(c.seq, atoms[k])
		}
		return c
	}
	return &eng.Space{Name: name, N: prod(r...), Run: func(i int64) eng.Out { return at(i).run() }, Desc: func(i int64) string { return at(i).String() }}
}

// woLong are sequences with many options, each once or often.
func woLong(th bool) (out []woCase) {
	n := len(woAtoms())
	small := woIndex(woContexts[2].pre...)
	add := func(seq []int) {
		c := woCase{ctx: len(out) % 2, ver: 1 + len(out)%2}
		c.seq = append(append(c.seq, seq...), small[:2]...) // to stay small
		if len(out)%3 > 0 {
			c.seq = append(append(c.seq[:0:0], small...), seq...)
		}
		out = append(out, c)
	}
	gcd := func(a, b int) int {
		for b > 0 {
			a, b = b, a%b
		}
		return a
	}
	for d := 1; d < n; d++ {
		if gcd(d, n) > 1 {
			continue
		}
		var seq []int
		for k := 0; k < n; k++ {
			seq = append(seq, k*d%n)
			if th || (k+d)%3 == 0 || k == n-1 {
				add(seq)
			}
		}
		for k := 0; k < n; k++ { // once more, from another place
			seq = append(seq, (k*d+d*d)%n)
		}
		add(seq)
	}
	for a := 0; a < n; a++ {
		for _, m := range []int{3, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257} {
			var seq []int
			for k := 0; k < m; k++ {
				seq = append(seq, a)
			}
			if m < 70 || a%7 == 0 || th {
				add(seq)
			}
			// one of each kind before and behind
			if m > 8 && m < 40 {
				add(append(append(seq[:0:0], woIndex("BgColor(#102030)", "FgColor(#c80028)", "LogoImage", "LogoSafeZone")...), seq...))
				add(append(seq[:len(seq):len(seq)], woIndex("BgColor(#102030)", "FgColor(#c80028)", "LogoImage", "LogoSafeZone", "QRWidth(6)", "CircleShape")...))
			}
		}
	}
	return
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C28", Level: "exploration",
		Rule: "one picture per sequence of options; its bytes and the writer's attribute are compared with those for the last effective option of each kind, given once in a fixed order. Distinct by output.",
		Assumptions: []string{
			"what each option paints when given once is decided by C13 to C18, C24 and C27",
		},
		Bounds: map[string]string{
			"quick":    "all sequences of 0 to 2 of 49 options (nil and unusable values included) after each of 6 contexts, all sequences of 3 with small blocks and with a logo in a safe zone; 3000 sequences of up to 257; 6 logos with and without safe zone in pictures with all 64 sets of gradient, halftone, transparency, colours and 4 shapes",
			"thorough": "additionally all sequences of 3 in the other contexts and all sequences of 4 of 22 of the options",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			var every []int
			for i := range woAtoms() {
				every = append(every, i)
			}
			var sp []*eng.Space
			for c := range woContexts {
				for d := 0; d <= 2; d++ {
					sp = append(sp, woSeqs(fmt.Sprintf("%s, %d", woContexts[c].name, d), c, 1+c%2, d, every))
				}
			}
			sp = append(sp, woSeqs("small blocks, 3", 2, 1, 3, every), woSeqs("logo in a safe zone, 3", 3, 1, 3, every))
			sp = append(sp, list("long sequences", woLong(th), woCase.run, woCase.String))
			// that they do not change each other: logos and safe zones in pictures with all sets of others
			bs := []borderArg{{args: []int{6}, want: [4]int{6, 6, 6, 6}}, {args: []int{1, 20, 7, 2}, want: [4]int{1, 20, 7, 2}}}
			sp = append(sp, list("logos with other options", logosTogether(bs, [][2]int{{5, 9}, {12, 4}, {13, 13}}), logoWith.run, logoWith.String))
			if th {
				sp = append(sp, woSeqs("small JPEG, 3", 1, 2, 3, every), woSeqs("everything, 3", 4, 1, 3, every), woSeqs("everything as JPEG, 3", 5, 1, 3, every))
				few := woIndex("BgColorRGBHex(#0f0)", "BgColor(nil)", "BgTransparent", "FgColor(#c80028)", "FgColorRGBHex(#000)", "FgGradient(1)", "FgGradient(nil)", "LogoImage", "LogoImageFilePNG", "LogoImage(large)",
					"LogoImageFilePNG(missing)", "QRWidth(6)", "CircleShape", "CustomShape(inset)", "JPEG", "CustomImageEncoder", "BorderWidth(1,2,3,4)", "HalftoneImage", "HalftoneImage(nil)", "LogoSizeMultiplier(1)", "LogoSizeMultiplier(30)", "LogoSafeZone")
				sp = append(sp, woSeqs("few, 4", 2, 1, 4, few))
			}
			return sp
		},
	})
}
