package props

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"io"
	"sync"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

// sink is an underlying stream that keeps everything.
type sink struct {
	bytes.Buffer
	closes int
}

func (s *sink) Close() error { s.closes++; return nil }

// capEnc is an image encoder that keeps the image.
type capEnc struct {
	img image.Image
	n   int
}

func (c *capEnc) Encode(w io.Writer, m image.Image) error { c.img = m; c.n++; return nil }

// code makes a code and its symbol; codes are reused.
type coded struct {
	q   *qrcode.QRCode
	sym *ref.Symbol
	kin []ref.Kind // module kinds
}

var codes sync.Map

func codeFor(ver, ec, k int) *coded {
	key := [3]int{ver, ec, k}
	if c, ok := codes.Load(key); ok {
		return c.(*coded)
	}
	m, t := textFor(ver, ec, k)
	q, err := qrcode.NewWith(t, qr.Ver(ver), qr.EC[ec], qr.Mode[m])
	if err != nil {
		panic(err)
	}
	s, err := qr.Of(q)
	if err != nil {
		panic(err)
	}
	c := &coded{q, s, ref.GetLayout(ver).Kind}
	codes.Store(key, c)
	return c
}

// paint saves a code with the standard writer and returns the image it drew.
func paint(q *qrcode.QRCode, o ...standard.ImageOption) (*image.RGBA, *standard.Writer, error) {
	e := &capEnc{}
	var s sink
	w := standard.NewWithWriter(&s, append(append([]standard.ImageOption(nil), o...), standard.WithCustomImageEncoder(e))...)
	if err := q.Save(w); err != nil {
		return nil, w, err
	}
	if e.n != 1 {
		return nil, w, fmt.Errorf("image encoder called %d times", e.n)
	}
	return toRGBA(e.img), w, nil
}

func toRGBA(m image.Image) *image.RGBA {
	if r, ok := m.(*image.RGBA); ok && r.Rect.Min == (image.Point{}) {
		c := image.NewRGBA(r.Rect)
		if r.Stride == c.Stride {
			copy(c.Pix, r.Pix)
		} else {
			draw.Draw(c, c.Rect, r, image.Point{}, draw.Src)
		}
		return c
	}
	b := m.Bounds()
	c := image.NewRGBA(b)
	draw.Draw(c, b, m, b.Min, draw.Src)
	return c
}

// geom is the expected geometry of a picture.
type geom struct {
	n, bw   int
	border  [4]int // top, right, bottom, left
	w, h    int
	sym     *ref.Symbol
	kind    []ref.Kind
	fg, bg  color.RGBA
	transp  bool
	bgalpha bool
}

func newGeom(c *coded, bw int, border [4]int) *geom {
	n := c.sym.N
	return &geom{n: n, bw: bw, border: border, w: n*bw + border[1] + border[3], h: n*bw + border[0] + border[2], sym: c.sym, kind: c.kin,
		fg: color.RGBA{0, 0, 0, 255}, bg: color.RGBA{255, 255, 255, 255}}
}

// module returns the module of a pixel, or -1 in the border.
func (g *geom) module(x, y int) (mx, my int) {
	x -= g.border[3]
	y -= g.border[0]
	if x < 0 || y < 0 || x >= g.n*g.bw || y >= g.n*g.bw {
		return -1, -1
	}
	return x / g.bw, y / g.bw
}

// want is the plain picture's colour; alpha 0 stands for any fully transparent value.
func (g *geom) want(x, y int) color.RGBA {
	mx, my := g.module(x, y)
	if mx >= 0 && g.sym.At(mx, my) {
		return g.fg
	}
	if g.transp {
		return color.RGBA{}
	}
	return g.bg
}

func (g *geom) plain() *image.RGBA {
	m := image.NewRGBA(image.Rect(0, 0, g.w, g.h))
	for y := 0; y < g.h; y++ {
		for x := 0; x < g.w; x++ {
			m.SetRGBA(x, y, g.want(x, y))
		}
	}
	return m
}

func same(a, b color.RGBA) bool { return a == b || a.A == 0 && b.A == 0 }

// compare returns the first difference of two pictures.
func (g *geom) compare(got *image.RGBA, want *image.RGBA) string {
	if got.Rect != want.Rect {
		return fmt.Sprintf("image is %v, want %v", got.Rect, want.Rect)
	}
	if bytes.Equal(got.Pix, want.Pix) {
		return ""
	}
	bad, first := 0, ""
	for y := 0; y < g.h; y++ {
		for x := 0; x < g.w; x++ {
			a, b := got.RGBAAt(x, y), want.RGBAAt(x, y)
			if !same(a, b) {
				if bad == 0 {
					mx, my := g.module(x, y)
					first = fmt.Sprintf("pixel (%d,%d) of module (%d,%d) is %v, want %v", x, y, mx, my, a, b)
				}
				bad++
			}
		}
	}
	if bad == 0 {
		return ""
	}
	return fmt.Sprintf("%d pixels differ; %s", bad, first)
}

func hashImg(m *image.RGBA) uint64 { return hashBytes(m.Pix) ^ uint64(m.Rect.Dx())<<32 }

// borderArg is one way of giving borders.
type borderArg struct {
	args []int
	want [4]int
	none bool // option not used
}

func borderArgs(vals ...int) (out []borderArg) {
	out = append(out, borderArg{none: true, want: [4]int{40, 40, 40, 40}}, borderArg{args: []int{}, want: [4]int{40, 40, 40, 40}})
	for _, a := range vals {
		out = append(out, borderArg{args: []int{a}, want: [4]int{a, a, a, a}})
		for _, b := range vals {
			out = append(out, borderArg{args: []int{a, b}, want: [4]int{a, b, a, b}})
			for _, c := range vals {
				for _, d := range vals {
					out = append(out, borderArg{args: []int{a, b, c, d}, want: [4]int{a, b, c, d}})
				}
			}
		}
	}
	return
}

func (b borderArg) opt() []standard.ImageOption {
	if b.none {
		return nil
	}
	return []standard.ImageOption{standard.WithBorderWidth(b.args...)}
}

func (b borderArg) String() string {
	if b.none {
		return "default borders"
	}
	return fmt.Sprintf("borders %v", b.args)
}

// effWidth is the block width an argument stands for.
func effWidth(w int) int {
	if w == 0 {
		return 20
	}
	return w
}

var _ = eng.K

// dist is the squared distance of two colours.
func dist(a, b color.RGBA) int {
	d := 0
	for _, v := range [4]int{int(a.R) - int(b.R), int(a.G) - int(b.G), int(a.B) - int(b.B), int(a.A) - int(b.A)} {
		d += v * v
	}
	return d
}
