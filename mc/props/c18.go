package props

import (
	"fmt"
	"image"
	"image/color"
	"math"

	"verif.local/mc/eng"
	"verif.local/mc/ref"

	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/shapes"
)

type drawFn = func(*standard.DrawContext)

// shapeKind is a library shape; r is the radius, in block widths, of what it paints at least around the middle.
type shapeKind struct {
	name   string
	make   func() drawFn
	r      float64
	square bool
}

var finderKinds = []shapeKind{
	{"square finder", shapes.SquareFinder, 0.5, true},
	{"rounded finder", shapes.RoundedFinder, 0.3, false},
}

func blockKinds() (out []shapeKind) {
	out = []shapeKind{
		{"liquid", shapes.LiquidBlock, 0.5, false},
		{"chain", shapes.ChainBlock, 0.45, false},
		{"vertical chain", shapes.VChainBlock, 0.425, false},
		{"horizontal chain", shapes.HChainBlock, 0.425, false},
	}
	for _, p := range []float64{0.6, 0.7, 0.85, 1} {
		p := p
		out = append(out, shapeKind{fmt.Sprintf("horizontal stripes %v", p), func() drawFn { return shapes.HStripeBlock(p) }, p / 2, false},
			shapeKind{fmt.Sprintf("vertical stripes %v", p), func() drawFn { return shapes.VStripeBlock(p) }, p / 2, false})
	}
	for _, p := range []float64{0.1, 0.25, 0.5, 0.8, 1} {
		p := p
		out = append(out, shapeKind{fmt.Sprintf("squares %v", p), func() drawFn { return shapes.SquareBlocks(p) }, p / 2, true},
			shapeKind{fmt.Sprintf("circles %v", p), func() drawFn { return shapes.CircleBlocks(p) }, p / 2, false})
	}
	return
}

var allBlocks = blockKinds()

type builtCase struct {
	ver, bw, k int
	f, blk     int // -1,-1: the circle shape option
	b          borderArg
	col        int
	transp     bool
}

func (c builtCase) String() string {
	n := "circle shape"
	if c.f >= 0 {
		n = finderKinds[c.f].name + ", " + allBlocks[c.blk].name
	}
	return fmt.Sprintf("version %d content %d block %d %s, %s, colours %v transparent %v", c.ver, c.k, c.bw, c.b, n, gradCols[c.col], c.transp)
}

func (c builtCase) run() eng.Out {
	code := codeFor(c.ver, 2, c.k)
	g := newGeom(code, c.bw, c.b.want)
	g.fg, g.bg = gradCols[c.col][0], gradCols[c.col][1]
	o := append([]standard.ImageOption{standard.WithQRWidth(uint8(c.bw)), standard.WithFgColor(g.fg), standard.WithBgColor(g.bg)}, c.b.opt()...)
	if c.transp {
		g.transp = true
		o = append(o, standard.WithBgTransparent())
	}
	fk := shapeKind{r: math.Floor(float64(c.bw)/2) / float64(c.bw)}
	bk := fk
	if c.f < 0 {
		o = append(o, standard.WithCircleShape())
	} else {
		fk, bk = finderKinds[c.f], allBlocks[c.blk]
		o = append(o, standard.WithCustomShape(shapes.Assemble(fk.make(), bk.make())))
	}
	img, _, err := paint(code.q, o...)
	if err != nil {
		return eng.V("save: %v", err)
	}
	if img.Rect != image.Rect(0, 0, g.w, g.h) {
		return eng.V("image is %v, want %dx%d", img.Rect, g.w, g.h)
	}
	exact, near, skipped := 0, 0, 0
	masks := map[uint16]bool{}
	for my := 0; my < g.n; my++ {
		for mx := 0; mx < g.n; mx++ {
			kind := bk
			if g.kind[my*g.n+mx] == ref.KFinder {
				kind = fk
			} else {
				masks[neighbours(g.sym, mx, my, nil)] = true
			}
			x, y := g.border[3]+mx*c.bw+c.bw/2, g.border[0]+my*c.bw+c.bw/2
			got, want := img.RGBAAt(x, y), g.want(x, y)
			// what of the middle pixel is certainly painted
			far := 1.0
			if c.bw%2 == 1 {
				far = 0.5
			}
			if !kind.square {
				far *= math.Sqrt2
			}
			r := kind.r * float64(c.bw)
			switch {
			case !g.sym.At(mx, my) && c.bw >= 4 || r >= far+0.1 || kind.square && r >= far:
				exact++
				if !same(got, want) {
					return eng.V("the middle pixel (%d,%d) of module (%d,%d), dark=%v, is %v, want %v", x, y, mx, my, g.sym.At(mx, my), got, want)
				}
			case !g.sym.At(mx, my) || r >= 1 || c.bw%2 == 1 && r >= 0.5:
				near++
				other := g.bg
				if c.transp {
					other = color.RGBA{}
				}
				if dist(got, want) >= dist(got, other) && want != other {
					return eng.V("the middle pixel (%d,%d) of module (%d,%d), dark=%v, is %v, not nearer to %v than to %v", x, y, mx, my, g.sym.At(mx, my), got, want, other)
				}
			default:
				skipped++
			}
		}
	}
	for y := 0; y < g.h; y++ {
		for x := 0; x < g.w; x++ {
			if mx, _ := g.module(x, y); mx < 0 && !same(img.RGBAAt(x, y), g.want(x, y)) {
				return eng.V("border pixel (%d,%d) is %v", x, y, img.RGBAAt(x, y))
			}
		}
	}
	out := eng.Out{Key: fmt.Sprintf("%x", hashImg(img)), Extra: map[string]int64{"middles_exact": int64(exact), "middles_blended": int64(near), "middles_of_less_than_a_pixel": int64(skipped)}}
	for m := range masks {
		out.Keys = append(out.Keys, fmt.Sprintf("neighbours %09b", m))
	}
	return out
}

// paramCase: a parameter out of range must give the picture of the documented default.
type paramCase struct {
	kind int
	v    float64
	k    int
}

var paramKinds = []struct {
	name   string
	make   func(float64) func(*standard.DrawContext)
	lo, hi float64
	def    float64
}{
	{"HStripeBlock", shapes.HStripeBlock, 0.6, 1, 0.85},
	{"VStripeBlock", shapes.VStripeBlock, 0.6, 1, 0.85},
	{"SquareBlocks", shapes.SquareBlocks, 0.1, 1, 1},
	{"CircleBlocks", shapes.CircleBlocks, 0.1, 1, 1},
}

func (c paramCase) String() string {
	return fmt.Sprintf("%s(%v), content %d", paramKinds[c.kind].name, c.v, c.k)
}

func (c paramCase) run() eng.Out {
	p := paramKinds[c.kind]
	code := codeFor(2, 1, c.k)
	const bw = 20
	g := newGeom(code, bw, [4]int{10, 10, 10, 10})
	pic := func(v float64) (*image.RGBA, error) {
		m, _, err := paint(code.q, standard.WithQRWidth(bw), standard.WithBorderWidth(10), standard.WithCustomShape(shapes.Assemble(shapes.SquareFinder(), p.make(v))))
		return m, err
	}
	got, err := pic(c.v)
	if err != nil {
		return eng.V("save: %v", err)
	}
	if !(c.v >= p.lo && c.v <= p.hi) {
		want, err := pic(p.def)
		if err != nil {
			return eng.V("save: %v", err)
		}
		if d := g.compare(got, want); d != "" {
			return eng.V("%v is out of [%v, %v] but the picture is not that of the default %v: %s", c.v, p.lo, p.hi, p.def, d)
		}
		return eng.K("default %x", hashImg(got))
	}
	// in range: the parameter gives the size, measured in a dark module as the darkness of the line of pixels
	// across its middle (squares, circles) or at the edge to a dark neighbour (stripes)
	n := 0
	for my := 1; my < g.n-1; my++ {
		for mx := 1; mx < g.n-1; mx++ {
			if g.kind[my*g.n+mx] == ref.KFinder || !g.sym.At(mx, my) {
				continue
			}
			x0, y0 := g.border[3]+mx*bw, g.border[0]+my*bw
			x, y, dx, dy := x0+bw/2, y0, 0, 1
			switch c.kind {
			case 0:
				if !g.sym.At(mx-1, my) || g.kind[my*g.n+mx-1] == ref.KFinder {
					continue
				}
				x = x0
			case 1:
				if !g.sym.At(mx, my-1) || g.kind[(my-1)*g.n+mx] == ref.KFinder {
					continue
				}
				x, y, dx, dy = x0, y0, 1, 0
			}
			n++
			sum := 0.0
			for i := 0; i < bw; i++ {
				sum += float64(255-img255(got, x+i*dx, y+i*dy)) / 255
			}
			// a circle is narrower half a pixel off its middle; stripes are painted over the circle
			if math.Abs(sum-c.v*bw) > 0.9 {
				return eng.V("module (%d,%d): the shape is %.2f pixels wide, want about %.2f", mx, my, sum, c.v*bw)
			}
		}
	}
	return eng.Out{Key: fmt.Sprintf("%d %x", n, hashImg(got)), Extra: map[string]int64{"widths_measured": int64(n)}}
}

func img255(m *image.RGBA, x, y int) int { return int(m.RGBAAt(x, y).G) }

func init() {
	eng.Register(&eng.Prop{
		ID: "C18", Level: "exploration",
		Rule: "one picture per case; the middle pixel of every module and every border pixel is compared with the expected colour, for parameters the picture with that of the default or the painted widths with the parameter. Distinct by picture and by neighbour set.",
		Assumptions: []string{
			"the middle pixel must have exactly the foreground colour when the nominal shape covers it whole, and be nearer to it than to the background when the shape is at least two pixels wide (one, for odd widths); smaller shapes cannot be read from pixels and are left out",
		},
		Bounds: map[string]string{
			"quick":    "the circle shape and all 44 combinations of finders and blocks (4 stripe ratios, 5 sizes) for block widths 2-24 in version 1 and 3, width 8 for versions 1-40; 5 colour pairs and transparency; 24 parameter values of each of 4 shapes",
			"thorough": "block widths 1-60 and versions 1-40 for all combinations",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			bs := []borderArg{{args: []int{0}, want: [4]int{}}, {args: []int{3, 8}, want: [4]int{3, 8, 3, 8}}, {args: []int{1, 2, 3, 5}, want: [4]int{1, 2, 3, 5}}}
			var ws, vs, cs []builtCase
			lim := 24
			if th {
				lim = 60
			}
			each := func(f func(a, b, i int)) {
				i := 0
				f(-1, -1, 0)
				for a := range finderKinds {
					for b := range allBlocks {
						i++
						f(a, b, i)
					}
				}
			}
			for w := 1; w <= lim; w++ {
				for _, v := range []int{1, 3} {
					each(func(a, b, i int) {
						ws = append(ws, builtCase{ver: v, bw: w, k: (w + i) % 4, f: a, blk: b, b: bs[(w+i)%3], col: 0})
					})
				}
			}
			for v := 1; v <= 40; v++ {
				each(func(a, b, i int) {
					if th || i == 0 || (i+v)%4 == 0 {
						vs = append(vs, builtCase{ver: v, bw: 8 + v%2, k: v % 4, f: a, blk: b, b: bs[(v+i)%3], col: 0})
					}
				})
			}
			for col := range gradCols[:5] {
				for t := 0; t < 2; t++ {
					each(func(a, b, i int) {
						cs = append(cs, builtCase{ver: 2, bw: 10, k: col % 4, f: a, blk: b, b: bs[i%3], col: col, transp: t == 1})
					})
				}
			}
			var ps []paramCase
			for k := range paramKinds {
				for _, v := range []float64{0.1, 0.2, 0.35, 0.5, 0.6, 0.61, 0.7, 0.85, 0.9, 0.95, 1, 0, -0.0, -1, -0.6, 0.0999, 0.05, 0.599999, 1.0000001, 1.5, 20, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64} {
					for c := 0; c < 2; c++ {
						ps = append(ps, paramCase{k, v, c})
					}
				}
			}
			mk := func(n string, cs []builtCase) *eng.Space { return list(n, cs, builtCase.run, builtCase.String) }
			return []*eng.Space{mk("widths", ws), mk("versions", vs), mk("colours", cs), list("parameters", ps, paramCase.run, paramCase.String)}
		},
	})
}
