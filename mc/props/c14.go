package props

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"os"
	"path/filepath"

	"image/jpeg"
	"image/png"

	"verif.local/mc/eng"
	"verif.local/mc/ref"

	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/shapes"
)

// logoPic makes a picture of kind k, every pixel with its own colour.
func logoPic(k, w, h int) image.Image {
	at := func(x, y int) color.NRGBA {
		return color.NRGBA{uint8(40 + x*7), uint8(250 - y*9), uint8(x*13 + y*29), 255}
	}
	set := func(m draw.Image) image.Image {
		b := m.Bounds()
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				c := at(x, y)
				if k == 1 {
					c.A = []uint8{0, 1, 100, 254, 255}[(x+2*y)%5]
				}
				m.Set(b.Min.X+x, b.Min.Y+y, c)
			}
		}
		return m
	}
	switch k {
	case 0:
		return set(image.NewRGBA(image.Rect(0, 0, w, h)))
	case 1:
		return set(image.NewNRGBA(image.Rect(0, 0, w, h)))
	case 2: // part of a larger picture
		big := image.NewRGBA(image.Rect(0, 0, w+9, h+5))
		for i := range big.Pix {
			big.Pix[i] = 255
		}
		return set(big.SubImage(image.Rect(6, 3, 6+w, 3+h)).(*image.RGBA))
	case 3:
		return set(image.NewNRGBA(image.Rect(-4, -7, w-4, h-7)))
	case 4:
		return set(image.NewGray(image.Rect(0, 0, w, h)))
	case 5:
		return set(image.NewPaletted(image.Rect(0, 0, w, h), color.Palette{color.RGBA{200, 0, 0, 255}, color.RGBA{0, 180, 0, 255}, color.RGBA{0, 0, 220, 255}, color.RGBA{9, 9, 9, 255}}))
	case 6:
		m := image.NewPaletted(image.Rect(2, -3, w+2, h-3), color.Palette{color.RGBA{}, color.RGBA{0, 90, 0, 100}, color.RGBA{0, 0, 220, 255}, color.NRGBA{255, 9, 9, 7}})
		for i := range m.Pix {
			m.Pix[i] = uint8(i * i / 3 % 4)
		}
		return m
	case 7:
		m := image.NewNRGBA64(image.Rect(0, 0, w, h))
		deep(m.Pix)
		return m
	case 8:
		m := image.NewRGBA64(image.Rect(-9, 4, w-9, h+4))
		deep(m.Pix)
		for i := 6; i < len(m.Pix); i += 8 {
			m.Pix[i], m.Pix[i+1] = 255, 255
		}
		return m
	case 9:
		m := image.NewGray16(image.Rect(0, 0, w, h))
		deep(m.Pix)
		return m
	case 10:
		m := image.NewYCbCr(image.Rect(0, 0, w, h), image.YCbCrSubsampleRatio420)
		deep(m.Y)
		deep(m.Cb)
		deep(m.Cr)
		return m
	case 11:
		m := image.NewNYCbCrA(image.Rect(5, 5, w+5, h+5), image.YCbCrSubsampleRatio444)
		deep(m.Y)
		deep(m.Cb)
		deep(m.Cr)
		deep(m.A)
		return m
	case 12:
		m := image.NewCMYK(image.Rect(0, 0, w, h))
		deep(m.Pix)
		return m
	case 13:
		m := image.NewAlpha(image.Rect(0, 0, w, h))
		deep(m.Pix)
		return m
	case 14: // a type of the caller's
		return ownImage{image.Rect(3, 3, w+3, h+3)}
	}
	panic("kind")
}

func deep(b []byte) {
	for i := range b {
		b[i] = byte(i*i*7 + i*13 + i/5)
	}
}

type ownImage struct{ r image.Rectangle }

func (m ownImage) ColorModel() color.Model { return color.NRGBAModel }
func (m ownImage) Bounds() image.Rectangle { return m.r }
func (m ownImage) At(x, y int) color.Color {
	if !image.Pt(x, y).In(m.r) {
		return color.NRGBA{}
	}
	return color.NRGBA{uint8(x * 40), uint8(y * 50), 7, uint8(255 - x%2*100)}
}

// translucentKind says whether a kind of logo may have translucent pixels.
func translucentKind(k int) bool { return k == 1 || k == 6 || k == 7 || k == 11 || k >= 13 }

var logoKinds = []string{"RGBA", "translucent NRGBA", "sub-image with origin (6,3)", "NRGBA with origin (-4,-7)", "Gray", "Paletted", "Paletted with translucent entries", "NRGBA64", "RGBA64", "Gray16", "YCbCr 4:2:0", "NYCbCrA", "CMYK", "Alpha", "an image type of the caller's"}

type logoCase struct {
	ver, bw    int
	b          borderArg
	kind       int
	lw, lh     int
	mult       int // 0: option not used (5)
	safe       bool
	via        int // 0 image, 1 PNG file, 2 JPEG file, 3 a logo that was replaced by nil later
	shapeCalls bool
}

func (c logoCase) String() string {
	return fmt.Sprintf("version %d block %d %s, logo %s %dx%d multiplier %d safe zone %v via %s", c.ver, c.bw, c.b, logoKinds[c.kind], c.lw, c.lh, c.mult, c.safe,
		[]string{"image", "PNG file", "JPEG file", "image then nil"}[c.via])
}

func (c logoCase) run() eng.Out {
	code := codeFor(c.ver, 3, 1)
	g := newGeom(code, c.bw, c.b.want)
	o := append([]standard.ImageOption{standard.WithQRWidth(uint8(c.bw))}, c.b.opt()...)
	pic := logoPic(c.kind, c.lw, c.lh)
	switch c.via {
	case 1, 2:
		dir, err := os.MkdirTemp("", "c14")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "logo")
		f, err := os.Create(name)
		if err != nil {
			panic(err)
		}
		if c.via == 1 {
			png.Encode(f, pic)
		} else {
			jpeg.Encode(f, pic, nil)
		}
		f.Close()
		f, _ = os.Open(name)
		if c.via == 1 {
			o = append(o, standard.WithLogoImageFilePNG(name))
			pic, _ = png.Decode(f)
		} else {
			o = append(o, standard.WithLogoImageFileJPEG(name))
			pic, _ = jpeg.Decode(f)
		}
		f.Close()
	default:
		o = append(o, standard.WithLogoImage(pic))
		if c.via == 3 {
			o = append(o, standard.WithLogoImage(nil))
		}
	}
	mult := 5
	if c.mult != 0 {
		mult = c.mult
		o = append(o, standard.WithLogoSizeMultiplier(mult))
	}
	if c.safe {
		o = append(o, standard.WithLogoSafeZone())
	}
	drawn := g.w >= mult*c.lw && g.h >= mult*c.lh
	// expected picture
	want := g.plain()
	lr := image.Rect(0, 0, c.lw, c.lh).Add(image.Pt((g.w-c.lw)/2, (g.h-c.lh)/2))
	over := func(x, y int) bool {
		r := image.Rect(0, 0, g.bw, g.bw).Add(image.Pt(g.border[3]+x*g.bw, g.border[0]+y*g.bw))
		return drawn && c.safe && r.Overlaps(lr)
	}
	cleared := 0
	for y := 0; y < g.n; y++ {
		for x := 0; x < g.n; x++ {
			if over(x, y) && g.sym.At(x, y) {
				cleared++
				r := image.Rect(0, 0, g.bw, g.bw).Add(image.Pt(g.border[3]+x*g.bw, g.border[0]+y*g.bw))
				draw.Draw(want, r, image.NewUniform(g.bg), image.Point{}, draw.Src)
			}
		}
	}
	if drawn {
		draw.Draw(want, lr, pic, pic.Bounds().Min, draw.Over)
	}
	if !c.shapeCalls {
		img, _, err := paint(code.q, o...)
		if err != nil {
			return eng.V("save: %v", err)
		}
		if translucentKind(c.kind) { // rounding of translucent pixels
			for i := range want.Pix {
				if d := int(want.Pix[i]) - int(img.Pix[i]); d >= -1 && d <= 1 {
					want.Pix[i] = img.Pix[i]
				}
			}
		}
		if d := g.compare(img, want); d != "" {
			return eng.V("logo drawn=%v at %v: %s", drawn, lr, d)
		}
		return eng.Out{Key: fmt.Sprintf("%v %x", drawn, hashImg(img)), Extra: map[string]int64{"logos_drawn": b2i(drawn), "dark_blocks_cleared": int64(cleared)}}
	}
	rec := &shapeRec{}
	if _, _, err := paint(code.q, append(o, standard.WithCustomShape(rec))...); err != nil {
		return eng.V("save: %v", err)
	}
	seen := map[[2]int]int{}
	for _, k := range rec.calls {
		x, y := (int(k.x)-g.border[3])/g.bw, (int(k.y)-g.border[0])/g.bw
		seen[[2]int{x, y}]++
		if x < 0 || y < 0 || x >= g.n || y >= g.n || float64(g.border[3]+x*g.bw) != k.x || float64(g.border[0]+y*g.bw) != k.y {
			return eng.V("shape called at (%v,%v)", k.x, k.y)
		}
		if over(x, y) {
			if k.color == g.fg {
				return eng.V("block (%d,%d) overlaps the logo at %v but is drawn in the foreground colour", x, y, lr)
			}
			continue
		}
		wc := g.bg
		if g.sym.At(x, y) {
			wc = g.fg
		}
		if k.color != wc {
			return eng.V("block (%d,%d) has colour %v, want %v", x, y, k.color, wc)
		}
		if wn := neighbours(g.sym, x, y, over); k.nb != wn {
			return eng.V("block (%d,%d): neighbours %09b, want %09b (logo at %v)", x, y, k.nb, wn, lr)
		}
	}
	for y := 0; y < g.n; y++ {
		for x := 0; x < g.n; x++ {
			if k := seen[[2]int{x, y}]; k > 1 || k == 0 && !over(x, y) {
				return eng.V("shape called %d times for block (%d,%d), logo at %v", k, x, y, lr)
			}
		}
	}
	return eng.Out{Key: fmt.Sprintf("calls %d %v", len(rec.calls), c), Extra: map[string]int64{"shape_calls": int64(len(rec.calls))}}
}

// combined: a logo together with another feature; the picture without logo comes from the writer itself.
type logoWith struct {
	logoCase
	with int
	dark bool // a logo of the foreground colour
}

var logoWiths = []string{"gradient", "halftone", "circles", "transparent background", "colours", "gradient on transparent circles", "halftone and gradient", "rounded liquid shapes", "transparent halftone"}

func (c logoWith) String() string {
	n := ""
	if w := c.with - len(logoWiths); w < 0 {
		n = logoWiths[c.with]
	} else {
		n = fmt.Sprintf("gradient %d, halftone %d, transparent %d, colours %d, shape %d", w&1, w>>1&1, w>>2&1, w>>3&1, w>>4)
	}
	return fmt.Sprintf("%s, with %s, logo of the foreground colour: %v", c.logoCase.String(), n, c.dark)
}

func (c logoWith) run() eng.Out {
	code := codeFor(c.ver, 3, 1)
	g := newGeom(code, c.bw, c.b.want)
	o := append([]standard.ImageOption{standard.WithQRWidth(uint8(c.bw))}, c.b.opt()...)
	grad := standard.WithFgGradient(standard.NewGradient(30, standard.ColorStop{T: 0, Color: color.RGBA{255, 0, 0, 255}}, standard.ColorStop{T: 1, Color: color.RGBA{0, 0, 255, 255}}))
	half, _ := halfPic(0, 6, g.n)
	switch c.with {
	case 0:
		o = append(o, grad)
	case 1:
		o = append(o, standard.WithHalftoneImage(half))
	case 2:
		o = append(o, standard.WithCircleShape())
	case 3:
		o = append(o, standard.WithBgTransparent())
		g.transp = true
	case 4:
		g.fg, g.bg = color.RGBA{40, 250, 0, 255}, color.RGBA{9, 0, 99, 255}
		o = append(o, standard.WithFgColor(g.fg), standard.WithBgColor(g.bg))
	case 5:
		o = append(o, grad, standard.WithBgTransparent(), standard.WithCircleShape())
		g.transp = true
	case 6:
		o = append(o, grad, standard.WithHalftoneImage(half))
	case 7:
		o = append(o, standard.WithCustomShape(shapes.Assemble(shapes.RoundedFinder(), shapes.LiquidBlock())))
	case 8:
		o = append(o, standard.WithHalftoneImage(half), standard.WithBgTransparent())
		g.transp = true
	}
	if w := c.with - len(logoWiths); w >= 0 { // any of them together
		if w&1 != 0 {
			o = append(o, grad)
		}
		if w&2 != 0 {
			o = append(o, standard.WithHalftoneImage(half))
		}
		if w&4 != 0 {
			o = append(o, standard.WithBgTransparent())
			g.transp = true
		}
		if w&8 != 0 {
			g.fg, g.bg = color.RGBA{40, 250, 0, 255}, color.RGBA{9, 0, 99, 255}
			o = append(o, standard.WithFgColor(g.fg), standard.WithBgColor(g.bg))
		}
		switch w >> 4 {
		case 1:
			o = append(o, standard.WithCircleShape())
		case 2:
			o = append(o, standard.WithCustomShape(insetShape{}))
		case 3:
			o = append(o, standard.WithCustomShape(shapes.Assemble(shapes.RoundedFinder(), shapes.SquareBlocks(0.8))))
		}
	}
	want, _, err := paint(code.q, o...)
	if err != nil {
		return eng.V("save: %v", err)
	}
	pic := logoPic(c.kind, c.lw, c.lh)
	if c.dark {
		pic = image.NewUniform(g.fg)
		m := image.NewRGBA(image.Rect(0, 0, c.lw, c.lh))
		draw.Draw(m, m.Rect, pic, image.Point{}, draw.Src)
		pic = m
	}
	o = append(o, standard.WithLogoImage(pic))
	mult := 5
	if c.mult != 0 {
		mult = c.mult
		o = append(o, standard.WithLogoSizeMultiplier(mult))
	}
	drawn := g.w >= mult*c.lw && g.h >= mult*c.lh
	lr := image.Rect(0, 0, c.lw, c.lh).Add(image.Pt((g.w-c.lw)/2, (g.h-c.lh)/2))
	if c.safe {
		o = append(o, standard.WithLogoSafeZone())
		for y := 0; y < g.n; y++ {
			for x := 0; x < g.n; x++ {
				r := image.Rect(0, 0, g.bw, g.bw).Add(image.Pt(g.border[3]+x*g.bw, g.border[0]+y*g.bw))
				if drawn && r.Overlaps(lr) {
					bg := g.bg
					if g.transp {
						bg = color.RGBA{}
					}
					draw.Draw(want, r, image.NewUniform(bg), image.Point{}, draw.Src)
				}
			}
		}
	}
	if drawn {
		draw.Draw(want, lr, pic, pic.Bounds().Min, draw.Over)
	}
	img, _, err := paint(code.q, o...)
	if err != nil {
		return eng.V("save: %v", err)
	}
	if translucentKind(c.kind) {
		for i := range want.Pix {
			if d := int(want.Pix[i]) - int(img.Pix[i]); d >= -1 && d <= 1 {
				want.Pix[i] = img.Pix[i]
			}
		}
	}
	if d := g.compare(img, want); d != "" {
		return eng.V("logo drawn=%v at %v: %s", drawn, lr, d)
	}
	return eng.Out{Key: fmt.Sprintf("%v %x", drawn, hashImg(img)), Extra: map[string]int64{"logos_drawn": b2i(drawn)}}
}

// logosTogether are logos in pictures with all sets of other options.
func logosTogether(bs []borderArg, sizes [][2]int) (out []logoWith) {
	for w := 0; w < 64; w++ {
		for bi, b := range bs {
			for k := 0; k < 4; k++ {
				for si, sz := range sizes {
					for s := 0; s < 2; s++ {
						out = append(out, logoWith{logoCase{ver: 1 + (bi+k)%3, bw: 3 + (w+w>>4+si)%4, b: b, kind: k * b2n(k < 3), lw: sz[0], lh: sz[1], safe: s == 1}, len(logoWiths) + w, k == 3})
					}
				}
			}
		}
	}
	return
}

func b2n(b bool) int { return int(b2i(b)) }

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// shapeCall is a recorded call of a custom shape.
type shapeCall struct {
	finder bool
	x, y   float64
	w, h   int
	color  color.Color
	nb     uint16
}

type shapeRec struct{ calls []shapeCall }

func (s *shapeRec) add(c *standard.DrawContext, finder bool) {
	x, y := c.UpperLeft()
	w, h := c.Edge()
	s.calls = append(s.calls, shapeCall{finder, x, y, w, h, c.Color(), c.Neighbours()})
}
func (s *shapeRec) Draw(c *standard.DrawContext)       { s.add(c, false) }
func (s *shapeRec) DrawFinder(c *standard.DrawContext) { s.add(c, true) }

// neighbours is the expected neighbour set; modules for which none reports true count as light.
func neighbours(s *ref.Symbol, x, y int, none func(x, y int) bool) (m uint16) {
	flags := [3][3]uint16{{standard.NTopLeft, standard.NTop, standard.NTopRight}, {standard.NLeft, standard.NSelf, standard.NRight}, {standard.NBotLeft, standard.NBot, standard.NBotRight}}
	for dy := -1; dy <= 1; dy++ {
		for dx := -1; dx <= 1; dx++ {
			a, b := x+dx, y+dy
			if a < 0 || b < 0 || a >= s.N || b >= s.N || none != nil && none(a, b) {
				continue
			}
			if s.At(a, b) {
				m |= flags[dy+1][dx+1]
			}
		}
	}
	return
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C14", Level: "exploration",
		Rule: "one picture (or one recording of all calls of a custom shape) per case with a logo of given kind, size, size multiplier, borders and safe zone, compared with the picture computed from the symbol and the logo. Distinct by picture.",
		Assumptions: []string{
			"translucent logo pixels are compared with image/draw's Over within one step per channel, all others exactly",
		},
		Bounds: map[string]string{
			"quick":    "every logo width and height from 1 to beyond the limit of a version-1 symbol of width 3 (3 borders, safe zone on and off), 15 kinds of image, 28 multipliers from 1 to 200, versions 1-6 and 10 with sizes around the limit, shape calls for the same; 9 other options (gradient, halftone, circles, transparency, colours and combinations) x 7 sizes, all 64 sets of gradient, halftone, transparency, colours and 4 shapes x 5 sizes x 4 kinds (one of the foreground colour)",
			"thorough": "additionally every logo size for block widths 2-6 and versions up to 40 around the limit",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			bs := []borderArg{{args: []int{0}, want: [4]int{}}, {args: []int{6}, want: [4]int{6, 6, 6, 6}}, {args: []int{1, 20, 7, 2}, want: [4]int{1, 20, 7, 2}}, {args: []int{33, 2}, want: [4]int{33, 2, 33, 2}}}
			var grid, kinds, mults, vers, calls, files []logoCase
			gridFor := func(ver, bw, mult int) {
				for bi, b := range bs {
					n := ref.Size(ver) * bw
					limW, limH := (n+b.want[1]+b.want[3])/mult+2, (n+b.want[0]+b.want[2])/mult+2
					for lw := 1; lw <= limW; lw++ {
						for lh := 1; lh <= limH; lh++ {
							for s := 0; s < 2; s++ {
								c := logoCase{ver: ver, bw: bw, b: b, lw: lw, lh: lh, mult: mult, safe: s == 1}
								if mult == 5 {
									c.mult = 0
								}
								grid = append(grid, c)
								if s == 1 && bi%2 == 0 {
									c.shapeCalls = true
									calls = append(calls, c)
								}
							}
						}
					}
				}
			}
			gridFor(1, 3, 5)
			gridFor(2, 1, 1)
			if th {
				for bw := 2; bw <= 6; bw++ {
					gridFor(1, bw, 3)
					gridFor(3, bw, 4)
				}
			}
			for k := range logoKinds {
				for _, sz := range [][2]int{{1, 1}, {5, 9}, {12, 4}, {13, 13}, {14, 14}} {
					for s := 0; s < 2; s++ {
						for bi := range bs {
							kinds = append(kinds, logoCase{ver: 1 + bi, bw: 3, b: bs[bi], kind: k, lw: sz[0], lh: sz[1], safe: s == 1})
						}
					}
				}
			}
			for _, m := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 50, 64, 100, 127, 128, 200} {
				for bi, b := range bs {
					for dx := -1; dx <= 1; dx++ {
						for dy := -1; dy <= 1; dy++ {
							n := ref.Size(2) * 4
							lw, lh := max(1, (n+b.want[1]+b.want[3])/m+dx), max(1, (n+b.want[0]+b.want[2])/m+dy)
							mults = append(mults, logoCase{ver: 2, bw: 4, b: b, kind: (bi + dx + dy + 6) % 6, lw: lw, lh: lh, mult: m, safe: (dx+dy)%2 == 0})
						}
					}
				}
			}
			vl := []int{2, 3, 4, 5, 6, 10}
			if th {
				vl = nil
				for v := 1; v <= 40; v++ {
					vl = append(vl, v)
				}
			}
			for _, v := range vl {
				for bi, b := range bs {
					for _, bw := range []int{1, 2, 5} {
						n := ref.Size(v) * bw
						for _, d := range [][2]int{{0, 0}, {1, 0}, {0, 1}, {-3, -8}, {-6, -1}} {
							c := logoCase{ver: v, bw: bw, b: b, kind: bi % 2 * 2, lw: (n+b.want[1]+b.want[3])/5 + d[0], lh: (n+b.want[0]+b.want[2])/5 + d[1], safe: true}
							if c.lw < 1 {
								c.lw = 1
							}
							if c.lh < 1 {
								c.lh = 1
							}
							vers = append(vers, c)
							c.shapeCalls = true
							calls = append(calls, c)
						}
					}
				}
			}
			for via := 1; via <= 3; via++ {
				for _, k := range []int{0, 4, 5} {
					for _, sz := range [][2]int{{8, 8}, {5, 11}, {30, 3}} {
						files = append(files, logoCase{ver: 3, bw: 4, b: bs[1], kind: k, lw: sz[0], lh: sz[1], safe: true, via: via})
					}
				}
			}
			var withs []logoWith
			for w := range logoWiths {
				for bi, b := range bs {
					for k := 0; k < 4; k++ {
						for _, sz := range [][2]int{{1, 1}, {5, 9}, {12, 4}, {13, 13}, {19, 18}, {21, 8}, {60, 60}} {
							for s := 0; s < 2; s++ {
								if w == 7 && s == 1 {
									continue // clearing blocks changes the shapes of their neighbours
								}
								withs = append(withs, logoWith{logoCase{ver: 1 + (bi+k)%3, bw: 4 + w%2, b: b, kind: k * b2n(k < 3), lw: sz[0], lh: sz[1], safe: s == 1}, w, k == 3})
							}
						}
					}
				}
			}
			together := logosTogether(bs, [][2]int{{1, 1}, {5, 9}, {12, 4}, {13, 13}, {60, 60}})
			mk := func(n string, cs []logoCase) *eng.Space {
				return list(n, cs, logoCase.run, logoCase.String)
			}
			return []*eng.Space{mk("sizes", grid), mk("kinds", kinds), mk("multipliers", mults), mk("versions", vers), mk("shape-calls", calls), mk("files", files), list("other options", withs, logoWith.run, logoWith.String), list("other options together", together, logoWith.run, logoWith.String)}
		},
	})
}
