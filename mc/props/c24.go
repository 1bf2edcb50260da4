package props

import (
	"fmt"
	"image/color"
	"image/color/palette"
	"regexp"
	"strings"

	"verif.local/mc/eng"

	"github.com/yeqown/go-qrcode/writer/standard"
)

var hexRe = regexp.MustCompile(`\A#([0-9a-fA-F]{6}|[0-9a-fA-F]{3})\z`)

func hexVal(s string) color.RGBA {
	d := func(c byte) uint8 {
		switch {
		case c >= 'a':
			return c - 'a' + 10
		case c >= 'A':
			return c - 'A' + 10
		}
		return c - '0'
	}
	if len(s) == 4 {
		return color.RGBA{d(s[1]) * 17, d(s[2]) * 17, d(s[3]) * 17, 255}
	}
	return color.RGBA{d(s[1])<<4 | d(s[2]), d(s[3])<<4 | d(s[4]), d(s[5])<<4 | d(s[6]), 255}
}

// tiny paints a small picture with the options and compares it.
func tiny(fg, bg color.RGBA, transp bool, o ...standard.ImageOption) string {
	code := codeFor(1, 0, 0)
	g := newGeom(code, 1, [4]int{0, 0, 1, 1})
	g.fg, g.bg, g.transp = fg, bg, transp
	img, _, err := paint(code.q, append([]standard.ImageOption{standard.WithQRWidth(1), standard.WithBorderWidth(0, 0, 1, 1)}, o...)...)
	if err != nil {
		return fmt.Sprint("save: ", err)
	}
	return g.compare(img, g.plain())
}

// applied says whether making a writer with the option panics.
func applied(o standard.ImageOption) (ok bool, what any) {
	defer func() {
		if r := recover(); r != nil {
			ok, what = false, r
		}
	}()
	standard.NewWithWriter(&sink{}, o)
	return true, nil
}

func hexCase(s string) eng.Out {
	good := hexRe.MatchString(s)
	for k := 0; k < 2; k++ {
		name := []string{"WithFgColorRGBHex", "WithBgColorRGBHex"}[k]
		var o standard.ImageOption
		if k == 0 {
			o = standard.WithFgColorRGBHex(s)
		} else {
			o = standard.WithBgColorRGBHex(s)
		}
		ok, _ := applied(o)
		if k == 1 && s == "" {
			if !ok {
				return eng.V("%s(%q) panics", name, s)
			}
			if d := tiny(black, white, false, o); d != "" {
				return eng.V("%s(%q): %s", name, s, d)
			}
			continue
		}
		if ok != good {
			if ok {
				d := ""
				for _, c := range []color.RGBA{black, white} {
					if tiny(c, white, false, o) == "" || tiny(black, c, false, o) == "" {
						d = fmt.Sprintf(" (and painted as %v)", c)
					}
				}
				return eng.V("%s accepts the malformed string %q%s", name, s, d)
			}
			return eng.V("%s rejects %q", name, s)
		}
		if good {
			fg, bg := black, white
			if k == 0 {
				fg = hexVal(s)
			} else {
				bg = hexVal(s)
			}
			if d := tiny(fg, bg, false, o); d != "" {
				return eng.V("%s(%q): %s", name, s, d)
			}
		}
	}
	if good {
		return eng.K("%v", hexVal(s))
	}
	return eng.K("rejected %q", s)
}

// stdColors are opaque colours of every standard 8-bit colour type.
func stdColors() (out []color.Color) {
	vs := []uint8{0, 1, 2, 16, 17, 127, 128, 200, 254, 255}
	for _, a := range vs {
		out = append(out, color.Gray{a})
		for _, b := range vs {
			for _, c := range vs {
				out = append(out, color.RGBA{a, b, c, 255}, color.NRGBA{a, b, c, 255}, color.YCbCr{a, b, c}, color.NYCbCrA{YCbCr: color.YCbCr{Y: a, Cb: b, Cr: c}, A: 255},
					color.CMYK{a, b, c, 0}, color.CMYK{a, b, c, 77}, color.CMYK{c, 0, a, b})
			}
		}
	}
	for v := 0; v < 256; v++ {
		out = append(out, color.Gray{uint8(v)}, color.RGBA{uint8(v), uint8(255 - v), uint8(v * 7), 255}, color.NRGBA{uint8(v), uint8(255 - v), uint8(v * 7), 255})
	}
	out = append(out, color.Alpha{255}, color.White, color.Black, color.Opaque)
	for _, c := range palette.Plan9 {
		out = append(out, c)
	}
	for _, c := range palette.WebSafe {
		out = append(out, c)
	}
	return
}

func colorCase(c color.Color) eng.Out {
	want := color.RGBAModel.Convert(c).(color.RGBA)
	if d := tiny(want, white, false, standard.WithFgColor(c)); d != "" {
		return eng.V("WithFgColor(%T%v): %s", c, c, d)
	}
	if d := tiny(black, want, false, standard.WithBgColor(c)); d != "" {
		return eng.V("WithBgColor(%T%v): %s", c, c, d)
	}
	return eng.K("%T %v", c, want)
}

// deepColors are translucent and 16-bit values of the standard colour types.
func deepColors() (out []color.Color) {
	vs := []uint8{0, 1, 2, 17, 127, 128, 200, 254, 255}
	for _, a := range vs {
		out = append(out, color.Alpha{a}, color.Alpha16{uint16(a)<<8 | 0x35})
		for _, r := range vs {
			for _, g := range vs {
				b := r ^ g
				out = append(out, color.NRGBA{r, g, b, a}, color.NRGBA64{uint16(r)<<8 | 0x7f, uint16(g)<<8 | 0x80, uint16(b)<<8 | 3, uint16(a) * 0x101}, color.NRGBA64{uint16(r) * 0x101, uint16(g)<<8 | 0xfe, uint16(b)<<8 | 1, uint16(a)<<8 | 0x22},
					color.NYCbCrA{YCbCr: color.YCbCr{Y: r, Cb: g, Cr: b}, A: a})
				if r <= a && g <= a && b <= a {
					out = append(out, color.RGBA{r, g, b, a}, color.RGBA64{uint16(r) * 0x101, uint16(g)*0x100 | uint16(g)/2, uint16(b) * 0x101, uint16(a) * 0x101})
				}
			}
		}
	}
	return
}

// deepCase hands a colour to a custom shape and to the border.
func deepCase(c color.Color) eng.Out {
	want := color.RGBAModel.Convert(c).(color.RGBA)
	code := codeFor(1, 0, 0)
	eq := func(a, b color.Color) bool {
		r, g, b1, a1 := a.RGBA()
		r2, g2, b2, a2 := b.RGBA()
		return r == r2 && g == g2 && b1 == b2 && a1 == a2
	}
	for k := 0; k < 2; k++ {
		opt, fg, bg := standard.WithFgColor(c), want, white
		if k == 1 {
			opt, fg, bg = standard.WithBgColor(c), black, want
		}
		rec := &shapeRec{}
		img, _, err := paint(code.q, standard.WithQRWidth(2), standard.WithBorderWidth(2), opt, standard.WithCustomShape(rec))
		if err != nil {
			return eng.V("save: %v", err)
		}
		if got := img.RGBAAt(0, 0); !same(got, bg) {
			return eng.V("%s(%T%v): the border is %v, want %v", []string{"WithFgColor", "WithBgColor"}[k], c, c, got, bg)
		}
		if len(rec.calls) != code.sym.N*code.sym.N {
			return eng.V("%d calls of the shape", len(rec.calls))
		}
		for i, call := range rec.calls {
			w := bg
			if code.sym.At(i%code.sym.N, i/code.sym.N) {
				w = fg
			}
			if !eq(call.color, w) {
				return eng.V("%s(%T%v): a module has the colour %v, want %v", []string{"WithFgColor", "WithBgColor"}[k], c, c, call.color, w)
			}
		}
	}
	return eng.K("%T %v", c, want)
}

type colOpt struct {
	name string
	make func() standard.ImageOption
	do   func(fg, bg *color.RGBA, tr *bool)
}

var colOpts = []colOpt{
	{"fg RGBA", func() standard.ImageOption { return standard.WithFgColor(color.RGBA{1, 2, 3, 255}) }, func(f, b *color.RGBA, t *bool) { *f = color.RGBA{1, 2, 3, 255} }},
	{"fg NRGBA", func() standard.ImageOption { return standard.WithFgColor(color.NRGBA{200, 2, 3, 255}) }, func(f, b *color.RGBA, t *bool) { *f = color.RGBA{200, 2, 3, 255} }},
	{"fg hex", func() standard.ImageOption { return standard.WithFgColorRGBHex("#0aF") }, func(f, b *color.RGBA, t *bool) { *f = color.RGBA{0, 170, 255, 255} }},
	{"fg nil", func() standard.ImageOption { return standard.WithFgColor(nil) }, func(f, b *color.RGBA, t *bool) {}},
	{"bg RGBA", func() standard.ImageOption { return standard.WithBgColor(color.RGBA{9, 99, 199, 255}) }, func(f, b *color.RGBA, t *bool) { *b = color.RGBA{9, 99, 199, 255} }},
	{"bg Gray", func() standard.ImageOption { return standard.WithBgColor(color.Gray{77}) }, func(f, b *color.RGBA, t *bool) { *b = color.RGBA{77, 77, 77, 255} }},
	{"bg hex", func() standard.ImageOption { return standard.WithBgColorRGBHex("#FEdc10") }, func(f, b *color.RGBA, t *bool) { *b = color.RGBA{254, 220, 16, 255} }},
	{"bg nil", func() standard.ImageOption { return standard.WithBgColor(nil) }, func(f, b *color.RGBA, t *bool) {}},
	{"bg empty hex", func() standard.ImageOption { return standard.WithBgColorRGBHex("") }, func(f, b *color.RGBA, t *bool) {}},
	{"transparent", func() standard.ImageOption { return standard.WithBgTransparent() }, func(f, b *color.RGBA, t *bool) { *t = true }},
	{"width", func() standard.ImageOption { return standard.WithQRWidth(1) }, func(f, b *color.RGBA, t *bool) {}},
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C24", Level: "exploration",
		Rule: "one string, colour value or sequence of colour options per case; a picture is painted with the real writer and every pixel compared with the expected colours, or applying the option must panic. Distinct by colour or string.",
		Assumptions: []string{
			"translucent colours: what a custom shape is handed for every module and what the border shows (how a translucent module blends with what is below it is left open)",
			"the exact colour of a value is what image/color's RGBAModel makes of it; 16-bit grey (which the repository's tests treat as an 8-bit value) is left out",
		},
		Bounds: map[string]string{
			"quick":    "all 10 648 4-character strings of hex digits in both cases; 7-character strings with every value of every channel in both cases; every byte at every position of valid strings, all pairs of 14 special bytes at all pairs of positions, all strings of length 0-2 over 16 bytes and prefixes of longer ones; 7 500 opaque colours of 9 types; 3 500 translucent and 16-bit ones of 7 types; all option sequences up to length 3 of 11 options",
			"thorough": "additionally all 2^24 colours of 7-character strings in lower case and option sequences up to length 4",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			digits := "0123456789abcdefABCDEF"
			var long, bad []string
			for v := 0; v < 256; v++ {
				for _, f := range []string{"#%02x1a2", "#1%02xA2", "#C3%02x"} {
					s := fmt.Sprintf(f, v)
					s += "9bDe0f"[:7-len(s)]
					long = append(long, s, strings.ToUpper(s))
				}
			}
			if th {
				for v := 0; v < 65536; v++ {
					long = append(long, fmt.Sprintf("#5A%04X", v), fmt.Sprintf("#%02xe1%02X", v>>8, v&255))
				}
			}
			for _, s := range []string{"#1aF", "#09aF3c", "#000", "#ffffff"} {
				for p := range s {
					for b := 0; b < 256; b++ {
						bad = append(bad, s[:p]+string([]byte{byte(b)})+s[p+1:])
					}
				}
				sp := " \t\n\r\v\f+-_xX.0g#"
				for p := range s {
					for r := p + 1; r < len(s); r++ {
						for _, a := range []byte(sp) {
							for _, b := range []byte(sp) {
								t := []byte(s)
								t[p], t[r] = a, b
								bad = append(bad, string(t))
							}
						}
					}
				}
				for _, u := range []string{"\u00a0", "\u0085", "\u2003", "é", "０", "Ａ"} {
					for p := 0; p < len(s); p++ {
						for cut := 0; cut <= len(u); cut++ {
							if p+cut <= len(s) {
								bad = append(bad, s[:p]+u+s[p+cut:])
							}
						}
					}
				}
			}
			al := []string{"#", "0", "f", "F", "g", " ", "\n", "+", "-", "x", "_", "\x00", "\xff", "1", "a", "."}
			for i := int64(0); i < wordCount(len(al), 2); i++ {
				s := ""
				for _, c := range word(i, len(al)) {
					s += al[c]
				}
				bad = append(bad, s)
			}
			for n := 0; n <= 40; n++ {
				bad = append(bad, strings.Repeat("#", n), strings.Repeat("0", n), "#"+strings.Repeat("a", n), "#"+strings.Repeat("a", n)+" ", " #"+strings.Repeat("a", n), strings.Repeat("F", n), "0x"+strings.Repeat("F", n))
			}
			bad = append(bad, "black", "#12345g", "rgb(1,2,3)", "#1 2 3 ", "#ff 0 0", "# ff", "#f f", "#+1+1+1", "#-1-1-1", "#1_1_1_", "#0x0x0x")
			cols := stdColors()
			max := 3
			if th {
				max = 4
			}
			seq := func(i int64) (n string, o []standard.ImageOption, fg, bg color.RGBA, tr bool) {
				fg, bg = black, white
				for _, k := range word(i, len(colOpts)) {
					n += ", " + colOpts[k].name
					o = append(o, colOpts[k].make())
					colOpts[k].do(&fg, &bg, &tr)
				}
				return
			}
			sp := []*eng.Space{}
			if th {
				sp = append(sp, &eng.Space{Name: "all", N: 1 << 24, Chunk: 4096, Run: func(i int64) eng.Out { return hexCase(fmt.Sprintf("#%06x", i)) },
					Desc: func(i int64) string { return fmt.Sprintf("#%06x", i) }})
			}
			q := func(s string) string { return fmt.Sprintf("%q", s) }
			return append([]*eng.Space{
				{Name: "short", N: prod(22, 22, 22), Run: func(i int64) eng.Out {
					c := combo(i, 22, 22, 22)
					return hexCase("#" + string([]byte{digits[c[0]], digits[c[1]], digits[c[2]]}))
				}, Desc: func(i int64) string {
					c := combo(i, 22, 22, 22)
					return "#" + string([]byte{digits[c[0]], digits[c[1]], digits[c[2]]})
				}},
				list("long", long, hexCase, q),
				list("malformed", bad, hexCase, q),
				list("values", cols, colorCase, func(c color.Color) string { return fmt.Sprintf("%T%v", c, c) }),
				list("translucent and 16-bit values", deepColors(), deepCase, func(c color.Color) string { return fmt.Sprintf("%T%v", c, c) }),
				{Name: "sequences", N: wordCount(len(colOpts), max), Run: func(i int64) eng.Out {
					n, o, fg, bg, tr := seq(i)
					if d := tiny(fg, bg, tr, o...); d != "" {
						return eng.V("%s", d)
					}
					return eng.K("%s %v %v %v", n, fg, bg, tr)
				}, Desc: func(i int64) string { n, _, _, _, _ := seq(i); return "options" + n }},
			}, sp...)
		},
	})
}
