package props

import (
	"fmt"
	"image"
	"image/color"
	"math"

	"verif.local/mc/eng"

	"github.com/yeqown/go-qrcode/writer/standard"
)

var stopSets = [][]standard.ColorStop{
	{{T: 0, Color: color.RGBA{255, 0, 0, 255}}, {T: 1, Color: color.RGBA{0, 0, 255, 255}}},
	{{T: 0.5, Color: color.RGBA{10, 200, 30, 255}}},
	{{T: 0.25, Color: color.RGBA{200, 0, 0, 255}}, {T: 0.75, Color: color.RGBA{0, 0, 200, 255}}},
	{{T: 0, Color: color.RGBA{255, 0, 0, 255}}, {T: 0.5, Color: color.RGBA{0, 255, 0, 255}}, {T: 1, Color: color.RGBA{0, 0, 255, 255}}},
	{{T: 0.1, Color: color.RGBA{1, 2, 3, 255}}, {T: 0.2, Color: color.RGBA{254, 0, 128, 255}}, {T: 0.35, Color: color.RGBA{0, 99, 7, 255}}, {T: 0.9, Color: color.RGBA{250, 250, 0, 255}}},
	{{T: 0.4, Color: color.RGBA{255, 0, 0, 255}}, {T: 0.4, Color: color.RGBA{0, 0, 255, 255}}},                                                                                      // a step
	{{T: -0.5, Color: color.RGBA{0, 0, 0, 255}}, {T: 1.5, Color: color.RGBA{255, 255, 255, 255}}},                                                                                   // beyond the ends
	{{T: 0, Color: color.RGBA{0, 0, 0, 255}}, {T: 0.3, Color: color.RGBA{0, 0, 0, 255}}, {T: 0.3, Color: color.RGBA{200, 200, 0, 255}}, {T: 1, Color: color.RGBA{9, 200, 80, 255}}}, // a jump
}

func init() {
	for _, n := range []int{5, 8, 9, 12, 17, 33, 64} {
		var s []standard.ColorStop
		for i := 0; i < n; i++ {
			s = append(s, standard.ColorStop{T: (float64(i) + float64(i%3)*0.2) / float64(n), Color: color.RGBA{uint8(i * 77), uint8(i*31 + n), uint8(255 - i*i), 255}})
		}
		stopSets = append(stopSets, s)
	}
}

func permutations(n int) (out [][]int) {
	var rec func(cur, rest []int)
	rec = func(cur, rest []int) {
		if len(rest) == 0 {
			out = append(out, append([]int(nil), cur...))
			return
		}
		for i := range rest {
			r := append(append([]int(nil), rest[:i]...), rest[i+1:]...)
			rec(append(cur, rest[i]), r)
		}
	}
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	rec(nil, all)
	return
}

type gradCase struct {
	ver, bw int
	b       borderArg
	angle   float64
	set     int
	pos     []int // positions of the stops (indices into gradPos) instead of a stop set
	perm    []int // order of the stops given to NewGradient; nil: a literal in ascending order
	col     int
	transp  bool
	shape   int // 0 rectangle, 1 circle, 2 custom, 3 halftone, 4 logo
	kind    int // 0 once, 1 nil gradient later, 2 other gradient before, 3 gradient before the colour options
	k       int
}

var gradCols = [][2]color.RGBA{{black, white}, {{200, 0, 40, 255}, {255, 250, 160, 255}}, {{0, 0, 255, 255}, {255, 0, 0, 255}}, {{7, 7, 7, 255}, {7, 7, 7, 255}}, {{255, 255, 255, 255}, {0, 0, 0, 255}}, {{0, 0, 100, 128}, white}, {{9, 8, 0, 10}, {200, 0, 0, 255}}}

// gradPos are positions of stops, inside and outside of the gradient.
var gradPos = []float64{-0.3, 0, 0.15, 0.4, 0.5, 0.65, 0.9, 1, 1.2}

func (c gradCase) stops() []standard.ColorStop {
	if c.pos == nil {
		return stopSets[c.set]
	}
	var s []standard.ColorStop
	for i, p := range c.pos {
		s = append(s, standard.ColorStop{T: gradPos[p], Color: [4]color.RGBA{{250, 0, 10, 255}, {0, 200, 30, 255}, {20, 0, 240, 255}, {220, 230, 0, 255}}[i]})
	}
	return s
}

func (c gradCase) String() string {
	return fmt.Sprintf("version %d content %d block %d %s, angle %g stops %v order %v, colours %v transparent %v, %s, %s", c.ver, c.k, c.bw, c.b, c.angle, c.stops(), c.perm, gradCols[c.col], c.transp,
		[]string{"rectangles", "circles", "custom shape", "halftone", "logo"}[c.shape], []string{"one option", "nil and empty gradients later", "another gradient before", "gradient option first"}[c.kind])
}

func (c gradCase) run() eng.Out {
	code := codeFor(c.ver, 1, c.k)
	g := newGeom(code, c.bw, c.b.want)
	o := append([]standard.ImageOption{standard.WithQRWidth(uint8(c.bw))}, c.b.opt()...)
	g.fg, g.bg = gradCols[c.col][0], gradCols[c.col][1]
	o = append(o, standard.WithFgColor(g.fg), standard.WithBgColor(g.bg))
	if c.transp {
		o = append(o, standard.WithBgTransparent())
		g.transp = true
	}
	switch c.shape {
	case 1:
		o = append(o, standard.WithCircleShape())
	case 2:
		o = append(o, standard.WithCustomShape(insetShape{}))
	case 3:
		p, _ := halfPic(0, 6, g.n)
		o = append(o, standard.WithHalftoneImage(p))
	case 4:
		lg := image.NewRGBA(image.Rect(0, 0, g.w/6, g.h/6))
		for i := range lg.Pix {
			lg.Pix[i] = []uint8{90, 91, 92, 255}[i%4]
		}
		o = append(o, standard.WithLogoImage(lg))
	}
	stops := c.stops()
	var gr *standard.LinearGradient
	if c.perm == nil {
		gr = &standard.LinearGradient{Angle: c.angle, Stops: append([]standard.ColorStop(nil), stops...)}
	} else {
		var given []standard.ColorStop
		for _, i := range c.perm {
			given = append(given, stops[i])
		}
		gr = standard.NewGradient(c.angle, given...)
	}
	base, _, err := paint(code.q, o...)
	if err != nil {
		return eng.V("save: %v", err)
	}
	if c.shape == 0 && (g.fg.A == 255 || g.transp) {
		if d := g.compare(base, g.plain()); d != "" {
			return eng.V("without gradient: %s", d)
		}
	}
	og := append([]standard.ImageOption(nil), o...)
	switch c.kind {
	case 0:
		og = append(og, standard.WithFgGradient(gr))
	case 1:
		og = append(og, standard.WithFgGradient(gr), standard.WithFgGradient(nil), standard.WithFgGradient(&standard.LinearGradient{}), standard.WithFgGradient(standard.NewGradient(45)))
	case 2:
		og = append(og, standard.WithFgGradient(standard.NewGradient(c.angle+77, standard.ColorStop{T: 0, Color: color.RGBA{1, 1, 1, 255}})), standard.WithFgGradient(gr))
	case 3:
		og = append([]standard.ImageOption{standard.WithFgGradient(gr)}, og...)
	}
	img, _, err := paint(code.q, og...)
	if err != nil {
		return eng.V("save: %v", err)
	}
	if img.Rect != base.Rect {
		return eng.V("image is %v with and %v without gradient", img.Rect, base.Rect)
	}
	// nothing changes with an absent or empty gradient
	if c.kind == 1 {
		e, _, err := paint(code.q, append(append([]standard.ImageOption(nil), o...), standard.WithFgGradient(nil), standard.WithFgGradient(&standard.LinearGradient{}), standard.WithFgGradient(standard.NewGradient(45)))...)
		if err != nil {
			return eng.V("save: %v", err)
		}
		if d := g.compare(e, base); d != "" {
			return eng.V("with empty gradients: %s", d)
		}
	}
	rad := c.angle * math.Pi / 180
	dx, dy := math.Cos(rad), -math.Sin(rad)
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, p := range [4][2]float64{{0, 0}, {0, float64(g.h)}, {float64(g.w), 0}, {float64(g.w), float64(g.h)}} {
		v := p[0]*dx + p[1]*dy
		lo, hi = math.Min(lo, v), math.Max(hi, v)
	}
	changed := 0
	for y := 0; y < g.h; y++ {
		for x := 0; x < g.w; x++ {
			was, got := base.RGBAAt(x, y), img.RGBAAt(x, y)
			if was != g.fg {
				if !same(was, got) {
					return eng.V("pixel (%d,%d) is not of the foreground colour: %v became %v", x, y, was, got)
				}
				continue
			}
			changed++
			t := ((float64(x)*dx + float64(y)*dy) - lo) / (hi - lo)
			if !gradOK(stops, t, got) {
				return eng.V("pixel (%d,%d) at %.6f of the gradient is %v", x, y, t, got)
			}
		}
	}
	return eng.Out{Key: fmt.Sprintf("%x", hashImg(img)), Extra: map[string]int64{"pixels_recoloured": int64(changed)}}
}

// gradOK accepts any rounding of the interpolated colour, and both sides of a jump.
func gradOK(stops []standard.ColorStop, t float64, got color.RGBA) bool {
	for _, u := range []float64{t, t - 1e-9, t + 1e-9} {
		l := len(stops) - 1
		c1, c2, f := stops[0].Color, stops[0].Color, 0.0
		switch {
		case u <= stops[0].T:
		case u >= stops[l].T:
			c1, c2 = stops[l].Color, stops[l].Color
		default:
			for i := 0; i < l; i++ {
				if u >= stops[i].T && u < stops[i+1].T {
					c1, c2, f = stops[i].Color, stops[i+1].Color, (u-stops[i].T)/(stops[i+1].T-stops[i].T)
				}
			}
		}
		ok := got.A == 255
		for _, v := range [3][3]uint8{{c1.R, c2.R, got.R}, {c1.G, c2.G, got.G}, {c1.B, c2.B, got.B}} {
			w := float64(v[0])*(1-f) + float64(v[1])*f
			if math.Abs(w-float64(v[2])) >= 1+1e-6 {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// insetShape leaves one pixel of each block's right and lower edge unpainted.
type insetShape struct{}

func (insetShape) Draw(c *standard.DrawContext) {
	x, y := c.UpperLeft()
	w, h := c.Edge()
	c.SetColor(c.Color())
	c.DrawRectangle(x, y, float64(w-1), float64(h-1))
	c.Fill()
}
func (s insetShape) DrawFinder(c *standard.DrawContext) { s.Draw(c) }

func init() {
	eng.Register(&eng.Prop{
		ID: "C16", Level: "exploration",
		Rule: "one picture with and one without gradient per case; every pixel that has the foreground colour in the latter must have the interpolated colour in the former, and every other pixel must be the same. Distinct by picture.",
		Assumptions: []string{
			"the position of a pixel is that of its upper-left corner, and any rounding of the interpolated colour is accepted; at a jump both sides are",
			"stop colours are opaque; a gradient made as a literal has its stops in ascending order (its documentation says so)",
		},
		Bounds: map[string]string{
			"quick":    "41 angles x 15 stop sets of 1 to 64 stops; all orders of up to 5 stops, 6 orders of more; all sets of up to 4 of 9 stop positions in and outside [0,1]; 7 colour pairs (2 with a translucent foreground), transparency, rectangle, circle and custom shapes, halftone, logo; versions 1-40 at block width 1-3, unequal borders",
			"thorough": "angles in steps of 1 degree from -360 to 720; all stop sets and orders with every angle in steps of 15",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			bs := []borderArg{{args: []int{0}, want: [4]int{}}, {args: []int{3, 8}, want: [4]int{3, 8, 3, 8}}, {args: []int{1, 2, 30, 5}, want: [4]int{1, 2, 30, 5}}}
			angles := []float64{-360, -90, -45, -1, 0.5, 1, 44.999, 89, 91, 359.5, 360, 405, 720, 1e4, 123.456, 179.9999, 270.001}
			for a := 0; a < 360; a += 15 {
				angles = append(angles, float64(a))
			}
			var as, ps, vs, ks []gradCase
			for i, a := range angles {
				for s := range stopSets {
					as = append(as, gradCase{ver: 1, bw: 3 + i%3, b: bs[(i+s)%3], angle: a, set: s, k: s % 4})
				}
			}
			if th {
				for a := -360; a <= 720; a++ {
					as = append(as, gradCase{ver: 1 + (a+360)%2, bw: 4, b: bs[(a+360)%3], angle: float64(a), set: (a + 360) % len(stopSets), k: (a + 360) % 4})
				}
			}
			for s, st := range stopSets {
				if s == 5 || s == 7 {
					continue // the order of stops with equal positions matters
				}
				if len(st) > 5 { // some orders: rotations, backwards and by steps
					for i := 0; i < 6; i++ {
						p := make([]int, len(st))
						for j := range p {
							p[j] = (j + i*len(p)/4) % len(p)
							if i >= 3 {
								p[j] = len(p) - 1 - p[j]
							}
						}
						ps = append(ps, gradCase{ver: 1, bw: 3, b: bs[i%3], angle: float64(60 * i), set: s, perm: p})
					}
					continue
				}
				for i, p := range permutations(len(st)) {
					for a := 0; a < 360; a += 15 {
						if !th && (a/15+i)%6 != 0 {
							continue
						}
						ps = append(ps, gradCase{ver: 1, bw: 3, b: bs[i%3], angle: float64(a), set: s, perm: p})
					}
				}
			}
			for v := 1; v <= 40; v++ {
				vs = append(vs, gradCase{ver: v, bw: 1 + v%3, b: bs[v%3], angle: float64(v * 9), set: v % len(stopSets), k: v % 4})
			}
			for sh := 0; sh < 5; sh++ {
				for col := range gradCols {
					for t := 0; t < 2; t++ {
						for kind := 0; kind < 4; kind++ {
							ks = append(ks, gradCase{ver: 1 + col, bw: 7, b: bs[(sh+col)%3], angle: float64(30 * (sh + kind)), set: (sh + col + kind) % 5, col: col, transp: t == 1, shape: sh, kind: kind})
						}
					}
				}
			}
			var pos []gradCase
			for i := int64(1); ; i++ {
				w := word(i, len(gradPos))
				if len(w) > 4 {
					break
				}
				up := len(w) > 0
				for j := 1; j < len(w); j++ {
					up = up && w[j] > w[j-1]
				}
				if up {
					for _, a := range []float64{0, 90, 180, 270, 33} {
						if !th && len(w) > 3 && a > 0 && a != 33 {
							continue
						}
						pos = append(pos, gradCase{ver: 1, bw: 2, b: bs[int(i)%3], angle: a, pos: w, k: int(i) % 4})
					}
				}
			}
			mk := func(n string, cs []gradCase) *eng.Space { return list(n, cs, gradCase.run, gradCase.String) }
			return []*eng.Space{mk("angles", as), mk("orders", ps), mk("versions", vs), mk("kinds", ks), mk("positions", pos)}
		},
	})
}
