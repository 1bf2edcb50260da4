package props

import (
	"fmt"
	"image"
	"image/color"
	"image/png"
	"math"
	"os"
	"path/filepath"

	"verif.local/mc/eng"
	"verif.local/mc/ref"

	"github.com/yeqown/go-qrcode/writer/standard"
)

type halfCase struct {
	ver, bw int
	b       borderArg
	src     int // kind of picture
	k       int // its content
	transp  bool
	col     int // colours
	file    bool
	mask    int // content of the code
}

func (c halfCase) String() string {
	return fmt.Sprintf("version %d content %d block %d %s, picture %s %d, transparent %v colours %d file %v", c.ver, c.mask, c.bw, c.b, halfSrc[c.src], c.k, c.transp, c.col, c.file)
}

var halfSrc = []string{"of one pixel per cell", "of 2x2 patches", "with a large origin, one pixel per cell", "of one pixel per cell in colour"}

// halfPic returns a picture and, for every cell of the 3n x 3n grid, what it must show:
// 1 white, 0 black, -1 undecided (near the edge of a patch).
func halfPic(src, k, n int) (image.Image, func(x, y int) int) {
	m := 3 * n
	bit := func(x, y int) bool {
		switch k {
		case 0:
			return false
		case 1:
			return true
		case 2:
			return (x+y)%2 == 0
		case 3:
			return x < m/2
		case 4:
			return y%3 == 0
		case 12:
			return (x+y*m)%256 > 60
		default:
			h := uint32(x*73856093) ^ uint32(y*19349663) ^ uint32(k*83492791)
			h = h*1664525 + 1013904223
			return h>>17&1 == 0
		}
	}
	shade := func(x, y int) uint8 {
		if k == 12 { // every brightness
			return uint8(x + y*m)
		}
		if bit(x, y) {
			return []uint8{255, 128, 200, 100}[(x+y*3)%4]
		}
		return []uint8{0, 10, 30, 1}[(x*5+y)%4]
	}
	switch src {
	case 0, 2, 3:
		o := image.Point{}
		if src == 2 {
			o = image.Pt(11, -7)
		}
		im := image.NewNRGBA(image.Rect(0, 0, m, m).Add(o))
		for y := 0; y < m; y++ {
			for x := 0; x < m; x++ {
				v := shade(x, y)
				c := color.NRGBA{v, v, v, 255}
				if src == 3 {
					if bit(x, y) {
						c = []color.NRGBA{{0, 255, 0, 255}, {255, 255, 0, 255}, {0, 200, 255, 255}}[(x+y)%3]
					} else {
						c = []color.NRGBA{{0, 0, 255, 255}, {60, 10, 0, 255}, {0, 20, 20, 255}}[(x+y)%3]
					}
				}
				im.SetNRGBA(o.X+x, o.Y+y, c)
			}
		}
		return im, func(x, y int) int { return int(b2i(bit(x, y))) }
	}
	// four patches, scaled up or down by any factor
	w, h := 10+k*7, 50-k*3
	im := image.NewGray(image.Rect(0, 0, w, h))
	on := [2][2]bool{{k&1 == 0, k&2 == 0}, {k&4 == 0, k&1 == 1}}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if on[b2i(y >= h/2)][b2i(x >= w/2)] {
				im.SetGray(x, y, color.Gray{230})
			} else {
				im.SetGray(x, y, color.Gray{5})
			}
		}
	}
	ex, ey := float64(w/2)/float64(w)*float64(m), float64(h/2)/float64(h)*float64(m)
	mx, my := 2+2*float64(m)/float64(w), 2+2*float64(m)/float64(h)
	return im, func(x, y int) int {
		if math.Abs(float64(x)-ex) < mx || math.Abs(float64(y)-ey) < my {
			return -1
		}
		return int(b2i(on[b2i(float64(y) > ey)][b2i(float64(x) > ex)]))
	}
}

func (c halfCase) run() eng.Out {
	code := codeFor(c.ver, 2, c.mask)
	g := newGeom(code, c.bw, c.b.want)
	o := append([]standard.ImageOption{standard.WithQRWidth(uint8(c.bw))}, c.b.opt()...)
	if c.col > 0 {
		g.fg, g.bg = [3]color.RGBA{{}, {200, 0, 40, 255}, {0, 0, 90, 255}}[c.col], [3]color.RGBA{{}, {255, 250, 160, 255}, {120, 255, 120, 255}}[c.col]
		o = append(o, standard.WithFgColor(g.fg), standard.WithBgColor(g.bg))
	}
	if c.transp {
		g.transp = true
		o = append(o, standard.WithBgTransparent())
	}
	pic, show := halfPic(c.src, c.k, g.n)
	if c.file {
		dir, err := os.MkdirTemp("", "c15")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		f, err := os.Create(filepath.Join(dir, "pic"))
		if err != nil {
			panic(err)
		}
		png.Encode(f, pic)
		f.Close()
		o = append(o, standard.WithHalftone(f.Name()))
	} else {
		o = append(o, standard.WithHalftoneImage(pic))
	}
	img, w, err := paint(code.q, o...)
	if err != nil {
		return eng.V("save: %v", err)
	}
	if a := w.Attribute(g.n); a.W != g.w || a.H != g.h || img.Rect != image.Rect(0, 0, g.w, g.h) {
		return eng.V("image %v, attribute %+v, want %dx%d", img.Rect, *a, g.w, g.h)
	}
	data, cells, skipped := 0, 0, 0
	for my := 0; my < g.n; my++ {
		for mx := 0; mx < g.n; mx++ {
			x0, y0 := g.border[3]+mx*c.bw, g.border[0]+my*c.bw
			k := g.kind[my*g.n+mx]
			if k == ref.KAlign && plainly(g, img, mx, my) {
				continue
			}
			if k != ref.KData && k != ref.KAlign || c.bw < 3 {
				for y := y0; y < y0+c.bw; y++ {
					for x := x0; x < x0+c.bw; x++ {
						if got, want := img.RGBAAt(x, y), g.want(x, y); !same(got, want) {
							return eng.V("pixel (%d,%d) of module (%d,%d), %s, is %v, want %v", x, y, mx, my, g.kind[my*g.n+mx], got, want)
						}
					}
				}
				continue
			}
			data++
			// the colours of the nine parts; nil: undecided
			var part [3][3]*color.RGBA
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					var want color.RGBA
					s := 0
					if i == 1 && j == 1 {
						want = g.want(x0, y0)
					} else {
						s = show(mx*3+i, my*3+j)
						switch {
						case s == 1 && !c.transp:
							want = white
						case s == 0:
							want = black
						}
					}
					if s < 0 {
						skipped++
						continue
					}
					cells++
					part[i][j] = &want
				}
			}
			for y := 0; y < c.bw; y++ {
				for x := 0; x < c.bw; x++ {
					got := img.RGBAAt(x0+x, y0+y)
					ok := false
					// the parts that the pixel overlaps
					for i := x * 3 / c.bw; i <= ((x+1)*3-1)/c.bw; i++ {
						for j := y * 3 / c.bw; j <= ((y+1)*3-1)/c.bw; j++ {
							ok = ok || part[i][j] == nil || same(got, *part[i][j])
						}
					}
					if x == c.bw/2 && y == c.bw/2 {
						ok = same(got, *part[1][1])
					}
					if !ok {
						return eng.V("pixel (%d,%d), at (%d,%d) of data module (%d,%d), is %v; the part (%d,%d) there has %v", x0+x, y0+y, x, y, mx, my, got,
							x*3/c.bw, y*3/c.bw, part[x*3/c.bw][y*3/c.bw])
					}
				}
			}
		}
	}
	for y := 0; y < g.h; y++ {
		for x := 0; x < g.w; x++ {
			if mx, _ := g.module(x, y); mx < 0 && !same(img.RGBAAt(x, y), g.want(x, y)) {
				return eng.V("border pixel (%d,%d) is %v", x, y, img.RGBAAt(x, y))
			}
		}
	}
	return eng.Out{Key: fmt.Sprintf("%x", hashImg(img)), Extra: map[string]int64{"data_modules": int64(data), "ninths_checked": int64(cells), "ninths_at_patch_edges": int64(skipped)}}
}

// plainly says whether a module is painted as without halftone.
func plainly(g *geom, img *image.RGBA, mx, my int) bool {
	x0, y0 := g.border[3]+mx*g.bw, g.border[0]+my*g.bw
	for y := y0; y < y0+g.bw; y++ {
		for x := x0; x < x0+g.bw; x++ {
			if !same(img.RGBAAt(x, y), g.want(x, y)) {
				return false
			}
		}
	}
	return true
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C15", Level: "exploration",
		Rule: "one picture per case with a halftone image; every pixel of every module that is not a data module, of the border, and of every ninth of every data module is compared with the expected colour. Distinct by picture.",
		Assumptions: []string{
			"alignment modules may be painted like data modules (most carry that type label) or plainly",
			"for block widths that three does not divide a pixel that overlaps several ninths may have the colour of any of them; the pixel in the middle of the block must have the module's own; blocks of 1 and 2 pixels cannot show a picture and must be painted plainly",
			"pictures have one pixel per ninth (compared one to one) or four large patches (compared away from their edges); shades lie clearly on one side of the black-and-white threshold, except in one picture with every grey value, where light is what exceeds 60",
		},
		Bounds: map[string]string{
			"quick":    "block widths 1-24, 30, 60 for versions 1 and 2; versions 1-40 for width 3; 13 pictures of 4 kinds, one with every grey value; transparency, 3 colour settings, 3 borders, picture from file",
			"thorough": "block widths 1-90 for versions 1-3, versions 1-40 for widths 3, 6 and 7 with all pictures",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			bs := []borderArg{{args: []int{0}, want: [4]int{}}, {args: []int{3, 8}, want: [4]int{3, 8, 3, 8}}, {args: []int{1, 2, 3, 5}, want: [4]int{1, 2, 3, 5}}}
			var ws, vs, ps []halfCase
			lim, nv := 24, 2
			if th {
				lim, nv = 90, 3
			}
			for w := 1; w <= lim; w++ {
				for v := 1; v <= nv; v++ {
					for i, k := range []int{0, 1, 2, 6, 7} {
						ws = append(ws, halfCase{ver: v, bw: w, b: bs[(w+i)%3], k: k, transp: (w+i)%4 == 0, col: (w + i) % 3, mask: i})
					}
				}
			}
			if !th {
				for _, w := range []int{30, 60} {
					ws = append(ws, halfCase{ver: 1, bw: w, b: bs[1], k: 8})
				}
			}
			for v := 1; v <= 40; v++ {
				for _, w := range []int{3, 6, 7} {
					for k := 0; k < 9; k++ {
						if !th && (w != 3 || (k+v)%3 != 0) {
							continue
						}
						vs = append(vs, halfCase{ver: v, bw: w, b: bs[v%3], k: k, transp: k%2 == 0, col: k % 3, mask: v % 4})
					}
				}
			}
			for src := range halfSrc {
				for k := 0; k < 12; k++ {
					for t := 0; t < 2; t++ {
						for col := 0; col < 3; col++ {
							ps = append(ps, halfCase{ver: 1 + k%4, bw: 3 + 3*(k%2), b: bs[k%3], src: src, k: k, transp: t == 1, col: col, file: col == 1 && src != 2})
						}
					}
				}
			}
			for v := 1; v <= 4; v++ {
				for src := 0; src < 3; src += 2 {
					for t := 0; t < 2; t++ {
						ps = append(ps, halfCase{ver: v, bw: 3 + 3*t, b: bs[v%3], src: src, k: 12, transp: t == 1, col: v % 3, file: t == 1})
					}
				}
			}
			mk := func(n string, cs []halfCase) *eng.Space { return list(n, cs, halfCase.run, halfCase.String) }
			return []*eng.Space{mk("widths", ws), mk("versions", vs), mk("pictures", ps)}
		},
	})
}
