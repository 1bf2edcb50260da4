package props

import (
	"fmt"
	"image"
	"image/color"

	"verif.local/mc/eng"
	"verif.local/mc/ref"

	"github.com/yeqown/go-qrcode/writer/standard"
)

// markShape records its calls and paints every module in a colour of its own.
type markShape struct {
	shapeRec
	n int
}

func mark(k int) color.RGBA { return color.RGBA{uint8(k), uint8(k >> 8), uint8(k>>4) ^ 0x5a, 255} }

func (s *markShape) paint(c *standard.DrawContext, finder bool) {
	s.add(c, finder)
	x, y := c.UpperLeft()
	w, h := c.Edge()
	c.SetColor(mark(s.n))
	s.n++
	c.DrawRectangle(x, y, float64(w), float64(h))
	c.Fill()
}
func (s *markShape) Draw(c *standard.DrawContext)       { s.paint(c, false) }
func (s *markShape) DrawFinder(c *standard.DrawContext) { s.paint(c, true) }

type callCase struct {
	ver, bw, ec, k int
	setWidth       bool
	b              borderArg
	l              int
}

var callLooks = looks()

func (c callCase) String() string {
	return fmt.Sprintf("version %d level %d content %d block %d (set %v) %s, %s", c.ver, c.ec, c.k, c.bw, c.setWidth, c.b, callLooks[c.l].name)
}

func (c callCase) run() eng.Out {
	code := codeFor(c.ver, c.ec, c.k)
	bw := 20
	var o []standard.ImageOption
	if c.setWidth {
		bw = effWidth(c.bw)
		o = append(o, standard.WithQRWidth(uint8(c.bw)))
	}
	g := newGeom(code, bw, c.b.want)
	o = append(o, c.b.opt()...)
	l := callLooks[c.l]
	o = append(o, l.opts...)
	g.fg, g.bg, g.transp = l.fg, l.bg, l.transp
	rec := &markShape{}
	img, _, err := paint(code.q, append([]standard.ImageOption{standard.WithCircleShape(), standard.WithCustomShape(rec)}, o...)...)
	if err != nil {
		return eng.V("save: %v", err)
	}
	if len(rec.calls) != g.n*g.n {
		return eng.V("%d calls for %d modules", len(rec.calls), g.n*g.n)
	}
	dark := 0
	for i, k := range rec.calls {
		x, y := i%g.n, i/g.n
		if k.x != float64(g.border[3]+x*bw) || k.y != float64(g.border[0]+y*bw) {
			return eng.V("call %d is at (%v,%v), want module (%d,%d) at (%d,%d)", i, k.x, k.y, x, y, g.border[3]+x*bw, g.border[0]+y*bw)
		}
		if k.w != bw || k.h != bw {
			return eng.V("module (%d,%d): edge %dx%d, want %d", x, y, k.w, k.h, bw)
		}
		if f := g.kind[i] == ref.KFinder; k.finder != f {
			return eng.V("module (%d,%d), %s: finder call %v", x, y, g.kind[i], k.finder)
		}
		wc := color.RGBA{}
		if g.sym.At(x, y) {
			wc = g.fg
			dark++
		} else if !g.transp {
			wc = g.bg
		}
		r, gg, b, a := k.color.RGBA()
		wr, wg, wb, wa := wc.RGBA()
		if a != wa || a != 0 && (r != wr || gg != wg || b != wb) {
			return eng.V("module (%d,%d): colour %v, want %v", x, y, k.color, wc)
		}
		if wn := neighbours(g.sym, x, y, nil); k.nb != wn {
			return eng.V("module (%d,%d): neighbours %09b, want %09b", x, y, k.nb, wn)
		}
		m := mark(i)
		if a, b := img.RGBAAt(int(k.x), int(k.y)), img.RGBAAt(int(k.x)+bw-1, int(k.y)+bw-1); a != m || b != m {
			return eng.V("what the shape painted for module (%d,%d) is not in the picture: %v %v, want %v", x, y, a, b, m)
		}
	}
	// and the border is not touched
	for y := 0; y < g.h; y++ {
		for x := 0; x < g.w; x++ {
			if mx, _ := g.module(x, y); mx < 0 && !same(img.RGBAAt(x, y), g.want(x, y)) {
				return eng.V("border pixel (%d,%d) is %v", x, y, img.RGBAAt(x, y))
			}
		}
	}
	// a nil shape means rectangles
	if bw <= 4 && c.ver <= 3 {
		img, _, err = paint(code.q, append([]standard.ImageOption{standard.WithCircleShape(), standard.WithCustomShape(nil)}, o...)...)
		if err != nil {
			return eng.V("save with a nil shape: %v", err)
		}
		if img.Rect != image.Rect(0, 0, g.w, g.h) {
			return eng.V("with a nil shape: image %v", img.Rect)
		}
		if d := g.compare(img, g.plain()); d != "" {
			return eng.V("with a nil shape: %s", d)
		}
	}
	return eng.Out{Key: c.String(), Extra: map[string]int64{"shape_calls": int64(len(rec.calls)), "dark_modules": int64(dark)}}
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C17", Level: "exploration",
		Rule: "one recording of all calls of a custom shape per case, compared call by call with the symbol: order, place, edge, kind of call, colour, neighbours; and what the shape paints must be in the picture. Distinct by configuration.",
		Assumptions: []string{
			"finder modules are the 7x7 finder patterns without the separators, as the type labels say",
			"the calls with a halftone image or a logo's safe zone are the subject of C15 and C14",
		},
		Bounds: map[string]string{
			"quick":    "versions 1-40 x 4 contents and levels (3 block widths), block widths 0-40 and 255, 278 border arguments, 110 colour settings",
			"thorough": "versions 1-40 x 4 levels x 4 contents, block widths 0-255",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			bs := borderArgs(0, 1, 3, 17)
			var vs, ws, bc, ls []callCase
			for v := 1; v <= 40; v++ {
				for ec := 0; ec < 4; ec++ {
					for k := 0; k < 4; k++ {
						if !th && k != (ec+v)%4 {
							continue
						}
						vs = append(vs, callCase{ver: v, bw: 1 + (v+k)%3, setWidth: true, ec: ec, k: k, b: bs[(v*7+ec)%len(bs)], l: (v + k) % 6})
					}
				}
			}
			for w := 0; w <= 255; w++ {
				if th || w <= 40 || w == 255 {
					ws = append(ws, callCase{ver: 1, bw: w, setWidth: true, ec: 1, k: w % 4, b: bs[w%len(bs)], l: w % 3})
				}
			}
			ws = append(ws, callCase{ver: 3, b: bs[0], k: 1})
			for i, b := range bs {
				bc = append(bc, callCase{ver: 1 + i%3, bw: 2, setWidth: true, b: b, k: i % 4})
			}
			for i := range callLooks {
				ls = append(ls, callCase{ver: 1 + i%4, bw: 3, setWidth: true, b: bs[i], k: i % 4, l: i})
			}
			mk := func(n string, cs []callCase) *eng.Space { return list(n, cs, callCase.run, callCase.String) }
			return []*eng.Space{mk("versions", vs), mk("widths", ws), mk("borders", bc), mk("colours", ls)}
		},
	})
}
