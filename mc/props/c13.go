package props

import (
	"bytes"
	"fmt"
	"image/color"
	"image/jpeg"
	"image/png"

	"verif.local/mc/eng"

	"github.com/yeqown/go-qrcode/writer/standard"
)

type look struct {
	name   string
	opts   []standard.ImageOption
	fg, bg color.RGBA
	transp bool
}

var black, white = color.RGBA{0, 0, 0, 255}, color.RGBA{255, 255, 255, 255}

var attrDims = []int{0, 1, 20, 21, 25, 177, 178, 181, 1000, 65536}

func looks() (out []look) {
	cs := []color.RGBA{black, white, {255, 0, 0, 255}, {0, 128, 255, 255}, {1, 2, 3, 255}, {254, 255, 250, 255}}
	out = append(out, look{name: "default colours", fg: black, bg: white},
		look{name: "transparent", opts: []standard.ImageOption{standard.WithBgTransparent()}, fg: black, bg: white, transp: true})
	for _, f := range cs {
		for _, b := range cs {
			f, b := f, b
			o := []standard.ImageOption{standard.WithFgColor(f), standard.WithBgColor(b)}
			out = append(out, look{fmt.Sprintf("fg %v bg %v", f, b), o, f, b, false},
				look{fmt.Sprintf("fg %v bg %v transparent", f, b), append(o[:2:2], standard.WithBgTransparent()), f, b, true},
				look{fmt.Sprintf("transparent, bg %v fg %v", b, f), []standard.ImageOption{standard.WithBgTransparent(), o[1], o[0]}, f, b, true})
		}
	}
	return
}

// plainCase paints once and compares every pixel, and the attribute the writer reports.
func plainCase(c *coded, width int, setWidth bool, b borderArg, l look) eng.Out {
	var o []standard.ImageOption
	bw := 20
	if setWidth {
		o = append(o, standard.WithQRWidth(uint8(width)))
		bw = effWidth(width)
	}
	o = append(o, b.opt()...)
	o = append(o, l.opts...)
	img, w, err := paint(c.q, o...)
	if err != nil {
		return eng.V("save: %v", err)
	}
	g := newGeom(c, bw, b.want)
	g.fg, g.bg, g.transp = l.fg, l.bg, l.transp
	a := w.Attribute(c.q.Dimension())
	if a == nil {
		return eng.V("no attribute")
	}
	if a.W != g.w || a.H != g.h || a.BlockWidth != bw || a.Borders != b.want {
		return eng.V("attribute is %+v, want %dx%d block %d borders %v", *a, g.w, g.h, bw, b.want)
	}
	if d := g.compare(img, g.plain()); d != "" {
		return eng.V("%s", d)
	}
	return eng.Out{Key: fmt.Sprintf("%dx%d %x", g.w, g.h, hashImg(img)), Extra: map[string]int64{"pixels": int64(g.w) * int64(g.h)}}
}

// attrCase asks for attributes before saving.
func attrCase(dims []int, width int, b borderArg) eng.Out {
	c := codeFor(2, 1, 1)
	e := &capEnc{}
	var k sink
	o := append([]standard.ImageOption{standard.WithQRWidth(uint8(width)), standard.WithCustomImageEncoder(e)}, b.opt()...)
	w := standard.NewWithWriter(&k, o...)
	g := newGeom(c, effWidth(width), b.want)
	ask := func(d int) string {
		a := w.Attribute(d)
		if a == nil || a.W != d*g.bw+b.want[1]+b.want[3] || a.H != d*g.bw+b.want[0]+b.want[2] || a.BlockWidth != g.bw || a.Borders != b.want {
			return fmt.Sprintf("attribute for dimension %d is %+v", d, a)
		}
		a.W, a.H, a.BlockWidth, a.Borders[0] = 1, 1, 1, 99 // the caller's copy
		return ""
	}
	for _, d := range dims {
		if v := ask(d); v != "" {
			return eng.V("before saving: %s", v)
		}
	}
	if err := c.q.Save(w); err != nil || e.n != 1 {
		return eng.V("save: %v, %d images", err, e.n)
	}
	if d := g.compare(toRGBA(e.img), g.plain()); d != "" {
		return eng.V("%s", d)
	}
	for _, d := range dims {
		if v := ask(d); v != "" {
			return eng.V("after saving: %s", v)
		}
	}
	return eng.K("%v %d %s", dims, width, b)
}

// fileCase decodes what the built-in encoders write.
func fileCase(c *coded, width int, b borderArg, l look, format int) eng.Out {
	o := []standard.ImageOption{standard.WithQRWidth(uint8(width))}
	o = append(o, b.opt()...)
	o = append(o, l.opts...)
	switch format {
	case 1:
		o = append(o, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
	case 2:
		o = append(o, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	}
	var s sink
	if err := c.q.Save(standard.NewWithWriter(&s, o...)); err != nil {
		return eng.V("save: %v", err)
	}
	if s.closes != 1 {
		return eng.V("stream closed %d times", s.closes)
	}
	g := newGeom(c, effWidth(width), b.want)
	g.fg, g.bg, g.transp = l.fg, l.bg, l.transp
	data := append([]byte(nil), s.Bytes()...)
	if format == 2 {
		rd := bytes.NewReader(data)
		im, err := png.Decode(rd)
		if err != nil {
			return eng.V("not a PNG: %v", err)
		}
		if rd.Len() != 0 {
			return eng.V("%d bytes after the PNG", rd.Len())
		}
		if d := g.compare(toRGBA(im), g.plain()); d != "" {
			return eng.V("decoded PNG: %s", d)
		}
		return eng.K("png %x", hashBytes(data))
	}
	im, err := jpeg.Decode(bytes.NewReader(data))
	if err != nil {
		return eng.V("not a JPEG: %v", err)
	}
	if im.Bounds().Dx() != g.w || im.Bounds().Dy() != g.h {
		return eng.V("JPEG is %v, want %dx%d", im.Bounds(), g.w, g.h)
	}
	near := func(x, y int, want color.RGBA) string {
		r, gg, bb, _ := im.At(x, y).RGBA()
		for k, v := range [3][2]int{{int(r >> 8), int(want.R)}, {int(gg >> 8), int(want.G)}, {int(bb >> 8), int(want.B)}} {
			if d := v[0] - v[1]; d > 70 || d < -70 {
				return fmt.Sprintf("pixel (%d,%d) of the JPEG has %d in channel %d, want about %d", x, y, v[0], k, v[1])
			}
		}
		return ""
	}
	bg := g.bg
	for y := 0; y < g.n; y++ {
		for x := 0; x < g.n; x++ {
			want := bg
			if g.sym.At(x, y) {
				want = g.fg
			}
			if d := near(g.border[3]+x*g.bw+g.bw/2, g.border[0]+y*g.bw+g.bw/2, want); d != "" {
				return eng.V("%s (module %d,%d)", d, x, y)
			}
		}
	}
	for _, p := range [][2]int{{0, 0}, {g.w - 1, 0}, {0, g.h - 1}, {g.w - 1, g.h - 1}} {
		if mx, _ := g.module(p[0], p[1]); mx < 0 && (g.border[0] >= 8 || g.border[2] >= 8) && (g.border[1] >= 8 || g.border[3] >= 8) {
			if d := near(p[0], p[1], bg); d != "" {
				return eng.V("%s (border)", d)
			}
		}
	}
	return eng.K("jpeg %x", hashBytes(data))
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C13", Level: "exploration",
		Rule: "one picture per case, drawn by the real writer, compared pixel by pixel with the picture computed from the symbol's modules, the block width, borders and colours, and with the attribute the writer reports. Distinct by size and picture.",
		Assumptions: []string{
			"colours are opaque (C24 has the others)",
			"a JPEG counts as the same picture when the middle of every module and the corners of the border are within 70 of the exact colour in every channel (block widths from 16 on)",
			"the symbol of the code is taken from Save with a capturing writer (C02 and C11 check that one)",
		},
		Bounds: map[string]string{
			"quick":    "block widths 0-48 and 12 larger ones for version 1; versions 1-40 with widths 1-4 and default; 278 border arguments (0,1,3,17; none, 0, 1, 2 and 4 values) x 3 widths; borders of 100 to 65536; pairs of 10 dimensions whose attributes are asked for before saving x 4 widths x 4 borders; 110 colour settings x 3 orders; 3 encoders x 48 settings",
			"thorough": "all block widths 0-255 for versions 1 and 2, widths 1-12 for all versions, border values 0,1,2,3,17,40",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			plainLook := look{name: "default", fg: black, bg: white}
			widths := []int{}
			for w := 0; w <= 48; w++ {
				widths = append(widths, w)
			}
			widths = append(widths, 50, 63, 64, 65, 99, 100, 127, 128, 129, 200, 254, 255)
			vs, bvals := 4, []int{0, 1, 3, 17}
			if th {
				widths = widths[:0]
				for w := 0; w <= 255; w++ {
					widths = append(widths, w)
				}
				vs, bvals = 12, []int{0, 1, 2, 3, 17, 40}
			}
			bs := borderArgs(bvals...)
			some := []borderArg{{none: true, want: [4]int{40, 40, 40, 40}}, {args: []int{0}, want: [4]int{}}, {args: []int{5, 9}, want: [4]int{5, 9, 5, 9}}, {args: []int{1, 2, 3, 4}, want: [4]int{1, 2, 3, 4}}}
			ls := looks()
			var wide []borderArg
			for _, n := range []int{100, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024} {
				wide = append(wide, borderArg{args: []int{n}, want: [4]int{n, n, n, n}}, borderArg{args: []int{n, 1}, want: [4]int{n, 1, n, 1}}, borderArg{args: []int{1, n}, want: [4]int{1, n, 1, n}})
				for k := 0; k < 4; k++ {
					w := [4]int{1, 2, 3, 4}
					w[k] = n
					wide = append(wide, borderArg{args: []int{w[0], w[1], w[2], w[3]}, want: w})
				}
			}
			for _, n := range []int{4096, 32768, 65536} {
				for k := 0; k < 4; k++ {
					w := [4]int{1, 0, 0, 1}
					w[k] = n
					wide = append(wide, borderArg{args: []int{w[0], w[1], w[2], w[3]}, want: w})
				}
			}
			nv := 1
			if th {
				nv = 2
			}
			return []*eng.Space{
				{Name: "widths", N: prod(len(widths), nv, 2), Chunk: 1, Run: func(i int64) eng.Out {
					c := combo(i, len(widths), nv, 2)
					return plainCase(codeFor(c[1]+1, 0, 2), widths[c[0]], true, some[c[2]*3], plainLook)
				}, Desc: func(i int64) string {
					c := combo(i, len(widths), nv, 2)
					return fmt.Sprintf("version %d block width %d %s", c[1]+1, widths[c[0]], some[c[2]*3])
				}},
				{Name: "versions", N: prod(40, vs+1, len(some)), Chunk: 2, Run: func(i int64) eng.Out {
					c := combo(i, 40, vs+1, len(some))
					return plainCase(codeFor(c[0]+1, c[2], 1), c[1], c[1] > 0, some[c[2]], plainLook)
				}, Desc: func(i int64) string {
					c := combo(i, 40, vs+1, len(some))
					return fmt.Sprintf("version %d block width %d (0: option not used) %s", c[0]+1, c[1], some[c[2]])
				}},
				{Name: "borders", N: prod(len(bs), 3), Run: func(i int64) eng.Out {
					c := combo(i, len(bs), 3)
					return plainCase(codeFor(1+c[1], 1, 0), 1+2*c[1], true, bs[c[0]], plainLook)
				}, Desc: func(i int64) string {
					c := combo(i, len(bs), 3)
					return fmt.Sprintf("version %d block width %d %s", 1+c[1], 1+2*c[1], bs[c[0]])
				}},
				list("wide borders", wide, func(b borderArg) eng.Out { return plainCase(codeFor(1, 2, 1), 2, true, b, plainLook) }, func(b borderArg) string { return "version 1 block width 2 " + b.String() }),
				{Name: "attributes first", N: prod(len(attrDims), len(attrDims), 4, len(some)), Run: func(i int64) eng.Out {
					c := combo(i, len(attrDims), len(attrDims), 4, len(some))
					return attrCase([]int{attrDims[c[0]], attrDims[c[1]]}, []int{0, 1, 3, 20}[c[2]], some[c[3]])
				}, Desc: func(i int64) string {
					c := combo(i, len(attrDims), len(attrDims), 4, len(some))
					return fmt.Sprintf("attributes for dimensions %d and %d before saving, block width %d %s", attrDims[c[0]], attrDims[c[1]], []int{0, 1, 3, 20}[c[2]], some[c[3]])
				}},
				{Name: "colours", N: prod(len(ls), 3), Run: func(i int64) eng.Out {
					c := combo(i, len(ls), 3)
					return plainCase(codeFor(2, 2, c[1]), 3, true, some[c[1]+1], ls[c[0]])
				}, Desc: func(i int64) string {
					c := combo(i, len(ls), 3)
					return fmt.Sprintf("%s, version 2 content %d block width 3 %s", ls[c[0]].name, c[1], some[c[1]+1])
				}},
				{Name: "files", N: prod(3, 3, 4, len(some)), Run: func(i int64) eng.Out {
					c := combo(i, 3, 3, 4, len(some))
					return fileCase(codeFor(1+3*c[1], 3, 1), 16+c[1]*3, some[c[3]], ls[[]int{0, 1, 6, 40}[c[2]]], c[0])
				}, Desc: func(i int64) string {
					c := combo(i, 3, 3, 4, len(some))
					return fmt.Sprintf("encoder %s, version %d block width %d, %s, %s", []string{"default", "JPEG", "PNG"}[c[0]], 1+3*c[1], 16+c[1]*3, ls[[]int{0, 1, 6, 40}[c[2]]].name, some[c[3]])
				}},
			}
		},
	})
}
