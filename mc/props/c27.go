package props

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"

	"verif.local/mc/eng"

	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/shapes"
)

// tpCase compares a picture with transparent background with the one painted on a colour.
type tpCase struct {
	ver, bw, k int
	b          borderArg
	shape      int // 0 rectangles, 1 circles, 2+i: finder i%2 with block i/2
	half       int // 0 none, else kind of halftone picture + 1
	logo       int // 0 none, 1+2*kind+safe
	grad       int
	fg         int
	order      int // of the transparency option, see below
	via        int // 0 custom encoder, 1 PNG, 2 the default format, 3 JPEG
}

var (
	tpFg    = []color.RGBA{{0, 0, 0, 255}, {200, 0, 40, 255}, {255, 255, 255, 255}, {0, 60, 120, 128}}
	tpBg    = []color.RGBA{{255, 255, 255, 255}, {0, 0, 0, 255}, {12, 200, 99, 255}, {255, 0, 0, 255}, {254, 255, 255, 255}}
	tpOrder = []string{"transparency last", "transparency first", "background colours before and after", "transparency twice"}
	tpVia   = []string{"custom encoder", "PNG", "default format", "JPEG"}
)

func (c tpCase) String() string {
	s := []string{"rectangles", "circles"}
	n := ""
	if c.shape < 2 {
		n = s[c.shape]
	} else {
		n = finderKinds[c.shape%2].name + ", " + allBlocks[(c.shape-2)/2].name
	}
	return fmt.Sprintf("version %d content %d block %d %s, %s, halftone %d, logo %d, gradient %d, foreground %v, %s, %s", c.ver, c.k, c.bw, c.b, n, c.half, c.logo, c.grad, tpFg[c.fg], tpOrder[c.order], tpVia[c.via])
}

// opts are all options but those for the background.
func (c tpCase) opts(g *geom) []standard.ImageOption {
	o := append([]standard.ImageOption{standard.WithQRWidth(uint8(c.bw)), standard.WithFgColor(tpFg[c.fg])}, c.b.opt()...)
	switch {
	case c.shape == 1:
		o = append(o, standard.WithCircleShape())
	case c.shape > 1:
		o = append(o, standard.WithCustomShape(shapes.Assemble(finderKinds[c.shape%2].make(), allBlocks[(c.shape-2)/2].make())))
	}
	if c.half > 0 {
		p, _ := halfPic(c.half-1, 6, g.n)
		o = append(o, standard.WithHalftoneImage(p))
	}
	if c.logo > 0 {
		kind := (c.logo - 1) / 2
		o = append(o, standard.WithLogoImage(logoPic(kind, g.w/5-kind%2, g.h/6+1)))
		if (c.logo-1)%2 == 1 {
			o = append(o, standard.WithLogoSafeZone())
		}
	}
	if c.grad > 0 {
		o = append(o, standard.WithFgGradient(standard.NewGradient(float64(37*c.grad), stopSets[(c.grad-1)%len(stopSets)]...)))
	}
	return o
}

func (c tpCase) run() eng.Out {
	code := codeFor(c.ver, 1+c.k%3, c.k)
	g := newGeom(code, c.bw, c.b.want)
	o := c.opts(g)
	t := append([]standard.ImageOption(nil), o...)
	switch c.order {
	case 0:
		t = append(t, standard.WithBgTransparent())
	case 1:
		t = append([]standard.ImageOption{standard.WithBgTransparent()}, t...)
	case 2:
		t = append(append([]standard.ImageOption{standard.WithBgColor(color.RGBA{1, 99, 3, 255})}, t...), standard.WithBgTransparent(), standard.WithBgColorRGBHex("#fedcba"))
	case 3:
		t = append(append([]standard.ImageOption{standard.WithBgTransparent()}, t...), standard.WithBgTransparent())
	}
	if c.via == 3 {
		return c.jpeg(code, o, t)
	}
	var img *image.RGBA
	switch c.via {
	case 0:
		var err error
		if img, _, err = paint(code.q, t...); err != nil {
			return eng.V("save: %v", err)
		}
	default:
		if c.via == 1 {
			t = append(t, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
		} else {
			t = append(t, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
		}
		var s sink
		if err := code.q.Save(standard.NewWithWriter(&s, t...)); err != nil {
			return eng.V("save: %v", err)
		}
		m, err := png.Decode(bytes.NewReader(s.Bytes()))
		if err != nil {
			return eng.V("not a PNG: %v", err)
		}
		img = toRGBA(m)
	}
	clear := 0
	for i := 0; i < len(img.Pix); i += 4 {
		a := img.Pix[i+3]
		if img.Pix[i] > a || img.Pix[i+1] > a || img.Pix[i+2] > a {
			return eng.V("pixel %d is %v: not a colour with alpha %d", i/4, img.Pix[i:i+4], a)
		}
		if a == 0 {
			clear++
		}
	}
	if clear == 0 && c.logo == 0 && c.half == 0 && c.bw > 1 {
		return eng.V("no transparent pixel")
	}
	bgs := tpBg
	if c.half > 0 {
		bgs = tpBg[:1] // light cells are always white
	}
	n := 0
	liquid := c.shape > 1 && allBlocks[(c.shape-2)/2].name == "liquid"
	for _, bg := range bgs {
		if c.grad > 0 && dist(bg, tpFg[c.fg]) < 100 {
			continue // the gradient would cover the background or blended edges
		}
		n++
		want, _, err := paint(code.q, append(append([]standard.ImageOption(nil), o...), standard.WithBgColor(bg))...)
		if err != nil {
			return eng.V("save: %v", err)
		}
		if want.Rect != img.Rect {
			return eng.V("image is %v, want %v", img.Rect, want.Rect)
		}
		bb := [4]int{int(bg.R), int(bg.G), int(bg.B), 255}
		for i := range img.Pix {
			a := int(img.Pix[i|3])
			got := int(img.Pix[i]) + (bb[i&3]*(255-a)+127)/255
			// every layer rounds down
			tol := 6
			if a == 0 {
				tol = 1
			}
			if d := got - int(want.Pix[i]); d < -tol || d > tol {
				// the liquid shape paints over other cells, which are not painted over again here
				if lo, hi := min(got, bb[i&3]), max(got, bb[i&3]); liquid && int(want.Pix[i]) >= lo-tol && int(want.Pix[i]) <= hi+tol {
					continue
				}
				p := i / 4
				return eng.V("pixel (%d,%d) is %v, over %v: channel %d is %d, but %v when painted with this background", p%g.w, p/g.w, img.RGBAAt(p%g.w, p/g.w), bg, i&3, got, want.RGBAAt(p%g.w, p/g.w))
			}
		}
	}
	return eng.Out{Key: fmt.Sprintf("%x", hashImg(img)), Extra: map[string]int64{"backgrounds": int64(n), "clear_pixels": int64(clear)}}
}

// jpeg: the option does not matter for pictures that can not be transparent.
func (c tpCase) jpeg(code *coded, o, t []standard.ImageOption) eng.Out {
	var a, b sink
	switch c.order {
	case 2:
		o = append(append([]standard.ImageOption{standard.WithBgColor(color.RGBA{1, 99, 3, 255})}, o...), standard.WithBgColorRGBHex("#fedcba"))
		fallthrough
	case 3:
		o = append(o, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
		t = append(t, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
	default:
		o = append([]standard.ImageOption{standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT)}, o...)
		t = append([]standard.ImageOption{standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT)}, t...)
	}
	if err := code.q.Save(standard.NewWithWriter(&a, o...)); err != nil {
		return eng.V("save: %v", err)
	}
	if err := code.q.Save(standard.NewWithWriter(&b, t...)); err != nil {
		return eng.V("save: %v", err)
	}
	if !bytes.HasPrefix(a.Bytes(), []byte{0xff, 0xd8}) {
		return eng.V("not a JPEG")
	}
	if !bytes.Equal(a.Bytes(), b.Bytes()) {
		return eng.V("the JPEG differs with a transparent background (%d and %d bytes)", a.Len(), b.Len())
	}
	return eng.Out{Key: fmt.Sprintf("jpeg %x", hashBytes(a.Bytes()))}
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C27", Level: "exploration",
		Rule: "one picture with transparent background per case, put over each of 5 opaque colours (1 for halftone) and compared pixel by pixel with the picture the writer paints with this background colour; JPEG files compared as bytes. Distinct by picture.",
		Assumptions: []string{
			"channels may differ by 6, by 1 where nothing is painted (rounding of the blending, once per layer)",
			"the liquid block shape paints beyond its cell: over a colour its picture may show more of the foreground than the painted one, but nothing else",
			"halftone pictures are compared over white, the colour of their light cells",
		},
		Bounds: map[string]string{
			"quick":    "versions 1, 2 and 7, block widths 1-12, 20 and 41, 3 borders and 31 border widths up to 1000 on each side, pictures up to 2900 pixels wide, all shapes of the library, 4 foregrounds, logos of 15 kinds with and without safe zone, halftone pictures, 8 gradients, 4 option orders, custom encoder, PNG and JPEG",
			"thorough": "additionally the product of all shapes, logos and gradients, versions up to 40",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			bs := []borderArg{{args: []int{0}, want: [4]int{}}, {args: []int{3, 9, 1, 4}, want: [4]int{3, 9, 1, 4}}, {none: true, want: [4]int{40, 40, 40, 40}}}
			var shapesOK []int
			for s := 0; s < 2+2*len(allBlocks); s++ {
				if s < 2 || allBlocks[(s-2)/2].name != "liquid" {
					shapesOK = append(shapesOK, s)
				}
			}
			bws := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 41}
			var sh, lo, ha, gr, jp, all []tpCase
			for i, s := range shapesOK {
				for j, bw := range bws {
					for fg := range tpFg {
						sh = append(sh, tpCase{ver: []int{1, 2, 7}[(i+j)%3], bw: bw, k: i % 3, b: bs[(i+j+fg)%3], shape: s, fg: fg, order: (j + fg) % 4, via: (i + fg) % 3})
					}
				}
			}
			for k := range logoKinds {
				for safe := 0; safe < 2; safe++ {
					for si, s := range []int{0, 1, shapesOK[5], shapesOK[12], shapesOK[len(shapesOK)-1]} {
						for j, bw := range []int{3, 4, 7, 20} {
							lo = append(lo, tpCase{ver: 2 + si, bw: bw, k: j % 3, b: bs[(j+si)%3], shape: s, logo: 1 + 2*k + safe, fg: (k + j) % 4, order: (k + si) % 4, via: j % 3})
						}
					}
				}
			}
			for hk := 0; hk < 4; hk++ {
				for _, bw := range []int{2, 3, 4, 5, 6, 9, 13} {
					for logo := 0; logo < 4; logo++ {
						for s := 0; s < 2; s++ {
							ha = append(ha, tpCase{ver: 1 + 2*hk, bw: bw, k: hk % 3, b: bs[bw%3], shape: s, half: 1 + hk, logo: logo * 3, fg: (logo + bw) % 2, order: bw % 4, via: (bw + s) % 3})
						}
					}
				}
			}
			for gk := 1; gk <= len(stopSets); gk++ {
				for i, s := range shapesOK {
					for fg := 0; fg < 3; fg++ {
						gr = append(gr, tpCase{ver: 1 + gk%3, bw: []int{5, 6, 8}[i%3], k: i % 3, b: bs[i%3], shape: s, grad: gk, logo: (i % 5) * 2, fg: fg, order: gk % 4, via: fg})
					}
				}
			}
			for i, s := range shapesOK {
				for order := 0; order < 4; order++ {
					for m := 0; m < 4; m++ {
						c := tpCase{ver: 1 + m, bw: 4 + i%5, k: m % 3, b: bs[order%3], shape: s, fg: (i + m) % 4, order: order, via: 3}
						switch m {
						case 1:
							c.logo = 1 + (i+order)%12
						case 2:
							c.half = 1 + i%4
						case 3:
							c.grad = 1 + i%8
						}
						jp = append(jp, c)
					}
				}
			}
			var li, la, bo []tpCase
			for s := range allBlocks {
				if allBlocks[s].name == "liquid" {
					for f := 0; f < 2; f++ {
						for _, bw := range bws {
							for fg := range tpFg {
								for logo := 0; logo < 3; logo++ { // the number of a text here
									li = append(li, tpCase{ver: 1 + (bw+fg)%8, bw: bw, k: (bw + logo) % 3, b: bs[(bw+fg+f)%3], shape: 2 + 2*s + f, fg: fg, order: (bw + f) % 4, via: (fg + logo) % 3})
								}
							}
						}
					}
				}
			}
			for i, c := range []tpCase{{ver: 40, bw: 5}, {ver: 40, bw: 6}, {ver: 40, bw: 11}, {ver: 40, bw: 12}, {ver: 30, bw: 20}, {ver: 27, bw: 20}, {ver: 10, bw: 40}, {ver: 1, bw: 255}, {ver: 20, bw: 21}, {ver: 5, bw: 60}, {ver: 1, bw: 100}, {ver: 2, bw: 164}, {ver: 40, bw: 20}, {ver: 12, bw: 64}} {
				if c.ver*4*c.bw > 2600 && !th && i > 4 {
					continue
				}
				for j := 0; j < 4; j++ {
					c.b, c.shape, c.k, c.via, c.order, c.fg = bs[(i+j)%3], []int{0, 1, 0, shapesOK[7]}[j], j%3, []int{0, 1, 2, 3}[j], (i+j)%4, j%3
					c.logo = 0
					if j == 2 && c.bw < 30 {
						c.logo = 3
					}
					la = append(la, c)
				}
			}
			for _, v := range []int{1, 2, 5, 20, 39, 40, 41, 42, 63, 64, 65, 80, 81, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 300, 511, 512, 513, 1000} {
				for k := 0; k < 5; k++ {
					b := [4]int{1, 2, 3, 4}
					if k < 4 {
						b[k] = v
					} else {
						b = [4]int{v, v, v, v}
					}
					if v > 500 && k == 4 {
						continue
					}
					bo = append(bo, tpCase{ver: 1 + k%2, bw: 3 + v%4, k: k % 3, b: borderArg{args: b[:], want: b}, shape: []int{0, 1, shapesOK[4]}[(k+v)%3], fg: (k + v) % 3, order: k % 4, via: v % 3, logo: v % 2 * 3})
				}
			}
			sp := []*eng.Space{list("liquid", li, tpCase.run, tpCase.String), list("large", la, tpCase.run, tpCase.String), list("borders", bo, tpCase.run, tpCase.String), list("shapes", sh, tpCase.run, tpCase.String), list("logos", lo, tpCase.run, tpCase.String), list("halftone", ha, tpCase.run, tpCase.String),
				list("gradients", gr, tpCase.run, tpCase.String), list("jpeg", jp, tpCase.run, tpCase.String)}
			if th {
				for i, s := range shapesOK {
					for logo := 0; logo <= 2*len(logoKinds); logo++ {
						for grad := 0; grad <= len(stopSets); grad++ {
							for j, bw := range []int{4, 5, 9} {
								all = append(all, tpCase{ver: 1 + (i*5+logo*3+grad)%40, bw: bw, k: j, b: bs[(i+logo)%3], shape: s, logo: logo, grad: grad, fg: (i + grad) % 3, order: logo % 4, via: j})
							}
						}
					}
				}
				sp = append(sp, list("products", all, tpCase.run, tpCase.String))
			}
			return sp
		},
	})
}
