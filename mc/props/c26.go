package props

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/color/palette"
	"image/draw"
	"image/jpeg"
	"image/png"
	"os"
	"path/filepath"

	"verif.local/mc/eng"

	"github.com/yeqown/go-qrcode/writer/standard/imgkit"
	xdraw "golang.org/x/image/draw"
)

var picKinds = []string{"Gray", "RGBA", "NRGBA", "YCbCr", "Paletted", "Gray16", "RGBA64", "CMYK", "Alpha", "sub-image of RGBA", "Uniform cropped", "NYCbCrA",
	"sub-image of Gray", "sub-image of NRGBA", "sub-image of YCbCr", "sub-image of Paletted", "sub-image of Gray16", "sub-image of RGBA64", "sub-image of CMYK", "sub-image of Alpha", "sub-image of NYCbCrA", "sub-image of NRGBA64"}

// picOf makes an image of a kind with bounds r; k varies the contents.
func picOf(kind, k int, r image.Rectangle) image.Image {
	at := func(x, y int) color.Color {
		h := uint32(x*73856093) ^ uint32(y*19349663) ^ uint32((k+1)*83492791)
		h = h*1664525 + 1013904223
		a := uint8(255)
		if k%3 == 2 {
			a = uint8(h >> 3)
		}
		return color.NRGBA{uint8(h >> 24), uint8(h >> 16), uint8(h >> 8), a}
	}
	set := func(m draw.Image) image.Image {
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				m.Set(x, y, at(x, y))
			}
		}
		return m
	}
	switch kind {
	case 0:
		return set(image.NewGray(r))
	case 1:
		return set(image.NewRGBA(r))
	case 2:
		return set(image.NewNRGBA(r))
	case 3, 11:
		m := image.NewNYCbCrA(r, image.YCbCrSubsampleRatio420)
		for i := range m.Y {
			m.Y[i] = uint8(i*37 + k*11)
		}
		for i := range m.Cb {
			m.Cb[i], m.Cr[i] = uint8(i*53+k), uint8(i*91+k*5)
		}
		for i := range m.A {
			m.A[i] = uint8(255 - i*k)
		}
		if kind == 3 {
			return &m.YCbCr
		}
		return m
	case 4:
		return set(image.NewPaletted(r, palette.WebSafe))
	case 5:
		return set(image.NewGray16(r))
	case 6:
		return set(image.NewRGBA64(r))
	case 7:
		return set(image.NewCMYK(r))
	case 8:
		return set(image.NewAlpha(r))
	case 9:
		big := image.NewRGBA(image.Rect(r.Min.X-3, r.Min.Y-2, r.Max.X+4, r.Max.Y+5))
		for i := range big.Pix {
			big.Pix[i] = 200
		}
		return set(big.SubImage(r).(*image.RGBA))
	case 10:
		return crop{image.NewUniform(at(k, k)), r}
	default:
		outer := image.Rect(r.Min.X-3, r.Min.Y-2, r.Max.X+4, r.Max.Y+5)
		var m image.Image
		if kind == 21 {
			n := image.NewNRGBA64(outer)
			draw.Draw(n, outer, picOf(2, k, outer), outer.Min, draw.Src)
			m = n
		} else {
			m = picOf([]int{0, 2, 3, 4, 5, 6, 7, 8, 11}[kind-12], k, outer)
		}
		return m.(interface {
			SubImage(image.Rectangle) image.Image
		}).SubImage(r)
	}
}

type crop struct {
	*image.Uniform
	r image.Rectangle
}

func (c crop) Bounds() image.Rectangle { return c.r }

func greyOf(c color.Color) uint8 { return color.GrayModel.Convert(c).(color.Gray).Y }

type convCase struct {
	kind, k, thr int
	r            image.Rectangle
}

func (c convCase) String() string {
	return fmt.Sprintf("%s %v contents %d, threshold %d", picKinds[c.kind], c.r, c.k, c.thr)
}

func (c convCase) run() eng.Out {
	src, ref := picOf(c.kind, c.k, c.r), picOf(c.kind, c.k, c.r)
	c.r = src.Bounds()
	g := imgkit.Gray(src)
	if g.Bounds() != c.r {
		return eng.V("Gray returns bounds %v for %v", g.Bounds(), c.r)
	}
	b := imgkit.Binaryzation(src, uint8(c.thr))
	if b.Bounds() != c.r {
		return eng.V("Binaryzation returns bounds %v for %v", b.Bounds(), c.r)
	}
	for y := c.r.Min.Y; y < c.r.Max.Y; y++ {
		for x := c.r.Min.X; x < c.r.Max.X; x++ {
			want := greyOf(ref.At(x, y))
			if got := g.GrayAt(x, y).Y; got != want {
				return eng.V("Gray: pixel (%d,%d) is %d, want %d", x, y, got, want)
			}
			bw := uint32(0)
			if int(want) > c.thr {
				bw = 0xffff
			}
			if r, gg, bb, a := b.At(x, y).RGBA(); r != bw || gg != bw || bb != bw || a != 0xffff {
				return eng.V("Binaryzation(%d): pixel (%d,%d) of grey %d is %v", c.thr, x, y, want, b.At(x, y))
			}
			if src.At(x, y) != ref.At(x, y) {
				return eng.V("pixel (%d,%d) of the source was changed", x, y)
			}
		}
	}
	if _, ok := b.(*image.Gray); !ok && c.r.Dx() > 0 {
		if _, ok := b.At(c.r.Min.X, c.r.Min.Y).(color.Gray); !ok {
			return eng.V("Binaryzation returns %T", b)
		}
	}
	return eng.K("%x", hashBytes(g.Pix))
}

// thrCase: all 256 shades against one threshold.
func thrCase(t int) eng.Out {
	src := image.NewGray(image.Rect(5, -3, 21, 13))
	for i := range src.Pix {
		src.Pix[i] = uint8(i)
	}
	b := imgkit.Binaryzation(src, uint8(t))
	for i := 0; i < 256; i++ {
		x, y := 5+i%16, -3+i/16
		want := uint8(0)
		if i > t {
			want = 255
		}
		if got := greyOf(b.At(x, y)); got != want {
			return eng.V("shade %d becomes %d at threshold %d", i, got, t)
		}
	}
	return eng.K("threshold %d", t)
}

type scaleCase struct {
	kind   int
	r, to  image.Rectangle
	scaler int
	k      int
}

var scalers = []xdraw.Scaler{nil, xdraw.NearestNeighbor, xdraw.ApproxBiLinear, xdraw.BiLinear, xdraw.CatmullRom}

func (c scaleCase) String() string {
	return fmt.Sprintf("%s %v to %v scaler %d contents %d", picKinds[c.kind], c.r, c.to, c.scaler, c.k)
}

func (c scaleCase) run() eng.Out {
	src := picOf(c.kind, c.k, c.r)
	c.r = src.Bounds()
	var got image.Image
	if c.scaler == 0 {
		got = imgkit.Scale(src, c.to, nil)
	} else {
		got = imgkit.Scale(src, c.to, scalers[c.scaler])
	}
	if got.Bounds() != c.to {
		return eng.V("bounds are %v", got.Bounds())
	}
	sc := scalers[c.scaler]
	if sc == nil {
		sc = xdraw.ApproxBiLinear
	}
	want := image.NewRGBA(c.to)
	sc.Scale(want, c.to, src, c.r, xdraw.Over, nil)
	for y := c.to.Min.Y; y < c.to.Max.Y; y++ {
		for x := c.to.Min.X; x < c.to.Max.X; x++ {
			a, b := color.RGBAModel.Convert(got.At(x, y)).(color.RGBA), want.RGBAAt(x, y)
			if !same(a, b) {
				return eng.V("pixel (%d,%d) is %v, want %v", x, y, a, b)
			}
			// with the nearest-neighbour scaler and an enlargement by a whole number every pixel is a copy
			if c.scaler == 1 && !c.r.Empty() && c.to.Dx()%c.r.Dx() == 0 && c.to.Dy()%c.r.Dy() == 0 {
				sx, sy := c.r.Min.X+(x-c.to.Min.X)/(c.to.Dx()/c.r.Dx()), c.r.Min.Y+(y-c.to.Min.Y)/(c.to.Dy()/c.r.Dy())
				w := color.RGBAModel.Convert(src.At(sx, sy)).(color.RGBA)
				for _, d := range [4]int{int(w.R) - int(a.R), int(w.G) - int(a.G), int(w.B) - int(a.B), int(w.A) - int(a.A)} {
					if d > 1 || d < -1 {
						return eng.V("pixel (%d,%d) is %v, the source has %v", x, y, a, w)
					}
				}
			}
		}
	}
	return eng.K("%x", hashImg(want))
}

type ioCase struct {
	kind, k int
	r       image.Rectangle
	ext     string
}

func (c ioCase) String() string {
	return fmt.Sprintf("%s %v contents %d as x%s", picKinds[c.kind], c.r, c.k, c.ext)
}

func tempDir() (string, func()) {
	dir, err := os.MkdirTemp("", "mcio")
	if err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

func (c ioCase) run() eng.Out {
	dir, done := tempDir()
	defer done()
	src := picOf(c.kind, c.k, c.r)
	name := filepath.Join(dir, "x"+c.ext)
	if c.k > 0 { // something is there already
		os.WriteFile(name, bytes.Repeat([]byte{0xaa}, []int{0, 100000, 1, 300}[c.k]), 0o644)
	}
	err := imgkit.Save(src, name)
	good := c.ext == ".png" || c.ext == ".jpg" || c.ext == ".jpeg"
	if !good {
		if err == nil {
			return eng.V("extension %q is accepted", c.ext)
		}
		return eng.K("rejected %s", c.ext)
	}
	if err != nil {
		return eng.V("save: %v", err)
	}
	back, err := imgkit.Read(name)
	if err != nil {
		return eng.V("read back: %v", err)
	}
	b, _ := os.ReadFile(name)
	if c.k > 0 {
		if err := imgkit.Save(src, filepath.Join(dir, "new"+c.ext)); err != nil {
			return eng.V("save: %v", err)
		}
		if f, _ := os.ReadFile(filepath.Join(dir, "new"+c.ext)); !bytes.Equal(f, b) {
			return eng.V("saved over another file there are %d bytes, in a new file %d", len(b), len(f))
		}
	}
	if l, err := os.ReadDir(dir); err != nil || len(l) > 2 || c.k == 0 && len(l) != 1 {
		return eng.V("there are other files: %v", l)
	}
	if _, f, _ := image.DecodeConfig(bytes.NewReader(b)); f != map[string]string{".png": "png", ".jpg": "jpeg", ".jpeg": "jpeg"}[c.ext] {
		return eng.V("%s holds a %s", c.ext, f)
	}
	if back.Bounds().Size() != c.r.Size() {
		return eng.V("read back %v for %v", back.Bounds(), c.r)
	}
	o := back.Bounds().Min.Sub(c.r.Min)
	var ref image.Image
	if c.ext != ".png" {
		var buf bytes.Buffer
		if jpeg.Encode(&buf, src, nil) != nil {
			return eng.V("jpeg")
		}
		ref, _ = jpeg.Decode(&buf)
	}
	for y := c.r.Min.Y; y < c.r.Max.Y; y++ {
		for x := c.r.Min.X; x < c.r.Max.X; x++ {
			if ref == nil {
				var buf color.Color = src.At(x, y)
				// PNG stores non-premultiplied values of 8 or 16 bits
				w, g := color.NRGBA64Model.Convert(buf).(color.NRGBA64), color.NRGBA64Model.Convert(back.At(x+o.X, y+o.Y)).(color.NRGBA64)
				for _, d := range [4]int{int(w.R) - int(g.R), int(w.G) - int(g.G), int(w.B) - int(g.B), int(w.A) - int(g.A)} {
					if (d > 0x101 || d < -0x101) && w.A == 0xffff || (w.A != g.A && w.A>>8 != g.A>>8) {
						return eng.V("pixel (%d,%d) is read back as %v, it was %v", x, y, g, w)
					}
				}
			} else {
				w, g := color.RGBAModel.Convert(ref.At(x-c.r.Min.X, y-c.r.Min.Y)).(color.RGBA), color.RGBAModel.Convert(back.At(x+o.X, y+o.Y)).(color.RGBA)
				if dist(w, g) > 3*60*60 {
					return eng.V("pixel (%d,%d) of the JPEG is %v, want about %v", x, y, g, w)
				}
			}
		}
	}
	return eng.K("%s %x", c.ext, hashBytes(b))
}

// readCase reads a picture from a file whose name says something else.
type readCase struct {
	kind int
	jpg  bool
	name string
}

func (c readCase) String() string {
	return fmt.Sprintf("%s, JPEG %v, from %q", picKinds[c.kind], c.jpg, c.name)
}

func (c readCase) run() eng.Out {
	dir, done := tempDir()
	defer done()
	var b bytes.Buffer
	src := picOf(c.kind, 0, image.Rect(0, 0, 9, 7))
	var err error
	if c.jpg {
		err = jpeg.Encode(&b, src, nil)
	} else {
		err = png.Encode(&b, src)
	}
	if err != nil {
		return eng.V("%v", err)
	}
	name := filepath.Join(dir, c.name)
	if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
		return eng.V("%v", err)
	}
	before := openFDs()
	got, err := imgkit.Read(name)
	if err != nil {
		return eng.V("read: %v", err)
	}
	if n := openFDs(); n != before {
		return eng.V("%d files are open after reading, %d before", n, before)
	}
	want, _, _ := image.Decode(bytes.NewReader(b.Bytes()))
	if want.Bounds() != got.Bounds() {
		return eng.V("read %v, want %v", got.Bounds(), want.Bounds())
	}
	for y := 0; y < 7; y++ {
		for x := 0; x < 9; x++ {
			if a, b := color.NRGBA64Model.Convert(want.At(x, y)), color.NRGBA64Model.Convert(got.At(x, y)); a != b {
				return eng.V("pixel (%d,%d) is %v, want %v", x, y, got.At(x, y), want.At(x, y))
			}
		}
	}
	if f, _ := os.ReadFile(name); !bytes.Equal(f, b.Bytes()) {
		return eng.V("reading changed the file")
	}
	return eng.K("%v %x", c.jpg, hashBytes(b.Bytes()))
}

// badFile writes b to a file and reads it.
func readBytes(b []byte) (image.Image, error) {
	dir, done := tempDir()
	defer done()
	n := filepath.Join(dir, "f.png")
	os.WriteFile(n, b, 0o644)
	return imgkit.Read(n)
}

func badSpaces() []*eng.Space {
	var p, j bytes.Buffer
	// a complete GIF of one pixel (this program must not register a GIF decoder)
	gf := []byte("GIF89a\x01\x00\x01\x00\x80\x00\x00\x00\x00\x00\xff\xff\xff!\xf9\x04\x01\x00\x00\x00\x00,\x00\x00\x00\x00\x01\x00\x01\x00\x00\x02\x02D\x01\x00;")
	src := picOf(1, 0, image.Rect(0, 0, 9, 7))
	png.Encode(&p, src)
	jpeg.Encode(&j, src, nil)
	type bad struct {
		name string
		run  func() error
	}
	var l []bad
	for n := 0; n < p.Len(); n++ {
		b := p.Bytes()[:n]
		l = append(l, bad{fmt.Sprintf("first %d bytes of a PNG", n), func() error { _, err := readBytes(b); return err }})
	}
	for n := 0; n < j.Len()-2; n++ {
		b := j.Bytes()[:n]
		l = append(l, bad{fmt.Sprintf("first %d bytes of a JPEG", n), func() error { _, err := readBytes(b); return err }})
	}
	l = append(l,
		bad{"GIF", func() error { _, err := readBytes(gf); return err }},
		bad{"text", func() error { _, err := readBytes([]byte("hello")); return err }},
		bad{"missing file", func() error {
			d, done := tempDir()
			defer done()
			_, err := imgkit.Read(d + "/none.png")
			return err
		}},
		bad{"directory", func() error {
			d, done := tempDir()
			defer done()
			_, err := imgkit.Read(d)
			return err
		}},
		bad{"empty name", func() error { _, err := imgkit.Read(""); return err }},
		bad{"save into a missing directory", func() error {
			d, done := tempDir()
			defer done()
			return imgkit.Save(src, d+"/none/x.png")
		}},
		bad{"save over a directory", func() error {
			d, done := tempDir()
			defer done()
			os.Mkdir(d+"/x.png", 0o755)
			return imgkit.Save(src, d+"/x.png")
		}},
		bad{"save PNG to a full device", func() error {
			d, done := tempDir()
			defer done()
			os.Symlink("/dev/full", d+"/x.png")
			return imgkit.Save(src, d+"/x.png")
		}},
		bad{"save JPEG to a full device", func() error {
			d, done := tempDir()
			defer done()
			os.Symlink("/dev/full", d+"/x.jpg")
			return imgkit.Save(src, d+"/x.jpg")
		}},
	)
	return []*eng.Space{list("errors", l, func(b bad) eng.Out {
		if err := b.run(); err == nil {
			return eng.V("no error")
		}
		return eng.K("%s", b.name)
	}, func(b bad) string { return b.name })}
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C26", Level: "exploration",
		Rule: "one source image (or file) per case; every pixel of what the helper returns is compared with the value computed from the source with image/color, or an error is required. Distinct by result.",
		Assumptions: []string{
			"the standard grey value is that of color.GrayModel; scaled contents are those of the requested scaler of golang.org/x/image/draw over the whole source (approximate bilinear by default)",
			"PNG pixels are compared within one 8-bit step for opaque pixels (the encoder stores non-premultiplied 8-bit values) and by transparency otherwise",
		},
		Bounds: map[string]string{
			"quick":    "12 image types x 8 rectangles (origins in all quadrants, empty, one pixel) x 12 contents x 256 thresholds; sides of 1 to 300 and 31 longer ones up to 9000 (also to scale from and to); all 256 shades x all 256 thresholds; 5 scalers x 12 types x 8 source x 9 target rectangles; saving and reading 12 types with 9 extensions, over 3 other files; reading PNG and JPEG from 20 names; every prefix of a PNG and a JPEG file, 9 other failures",
			"thorough": "60 contents",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			rs := []image.Rectangle{image.Rect(0, 0, 7, 5), image.Rect(3, 4, 10, 12), image.Rect(-4, -6, 3, 2), image.Rect(-2, 5, 6, 8), image.Rect(100, 200, 101, 201), image.Rect(0, 0, 1, 1), image.Rect(2, 2, 2, 9), image.Rect(0, 9, 16, 20)}
			var thr []int
			for t := 0; t < 256; t++ {
				thr = append(thr, t)
			}
			ks := 12
			if th {
				ks = 60
			}
			conv := func(i int64) convCase {
				c := combo(i, len(picKinds), len(rs), ks, len(thr))
				return convCase{c[0], c[2], thr[c[3]], rs[c[1]]}
			}
			tos := append([]image.Rectangle{image.Rect(0, 0, 14, 10), image.Rect(5, 5, 26, 20)}, rs[:7]...)
			scale := func(i int64) scaleCase {
				c := combo(i, len(picKinds), len(rs), len(tos), len(scalers), 2)
				return scaleCase{c[0], rs[c[1]], tos[c[2]], c[3], c[4]}
			}
			var ios []ioCase
			for k := range picKinds {
				for _, r := range rs {
					for _, e := range []string{".png", ".jpg", ".jpeg", ".gif", "", ".PNGX", ".txt", ".bmp", ".webp"} {
						for c := 0; c < 4; c++ {
							if !r.Empty() {
								ios = append(ios, ioCase{k, c, r, e})
							}
						}
					}
				}
			}
			// long sides
			var long []int
			for n := 1; n <= 300; n++ {
				long = append(long, n)
			}
			long = append(long, 319, 320, 321, 511, 512, 513, 639, 640, 700, 767, 768, 999, 1000, 1023, 1024, 1025, 1279, 1280, 1500, 1920, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8192, 9000)
			var lc []convCase
			var ls []scaleCase
			for i, n := range long {
				for j, r := range []image.Rectangle{image.Rect(0, 0, n, 3), image.Rect(0, 0, 3, n), image.Rect(-n/2, 5, n-n/2, 7), image.Rect(9, -7, 12, n-7)} {
					for d := 0; d < 4; d++ {
						k := (4*i + j + d*5) % len(picKinds)
						lc = append(lc, convCase{k, i % 12, []int{128, 60, 0, 254}[d], r})
						if d < 2 {
							ls = append(ls, scaleCase{k, r, image.Rect(0, 0, 7, 9), (i + d) % len(scalers), 0}, scaleCase{k, rs[j], r, (i + d + 1) % len(scalers), 1})
						}
					}
				}
			}
			for i, n := range []int{256, 257, 300, 512, 600, 1025} {
				lc = append(lc, convCase{i, i, 99, image.Rect(0, 0, n, n)})
				ls = append(ls, scaleCase{i, image.Rect(0, 0, n, n-3), image.Rect(0, 0, 63, 63), 0, 0}, scaleCase{i, rs[0], image.Rect(0, 0, n, n), 0, 0})
			}
			var reads []readCase
			for k := range picKinds {
				for j := 0; j < 2; j++ {
					for _, e := range []string{"x", "x.png", "x.jpg", "x.jpeg", "x.PNG", "x.JPG", "x.gif", "x.bmp", "x.webp", "x.tiff", "x.txt", "x.", ".png", ".jpg", "a b.png", "x.png.jpg", "x.jpg.png", "漢.jpg", "-", "x.pdf"} {
						reads = append(reads, readCase{k, j == 1, e})
					}
				}
			}
			return append([]*eng.Space{
				list("names", reads, readCase.run, readCase.String),
				list("long sides", lc, convCase.run, convCase.String),
				list("scaling of long sides", ls, scaleCase.run, scaleCase.String),
				{Name: "conversions", N: prod(len(picKinds), len(rs), ks, len(thr)), Run: func(i int64) eng.Out { return conv(i).run() }, Desc: func(i int64) string { return conv(i).String() }},
				{Name: "thresholds", N: 256, Run: func(i int64) eng.Out { return thrCase(int(i)) }, Desc: func(i int64) string { return fmt.Sprint("threshold ", i) }},
				{Name: "scaling", N: prod(len(picKinds), len(rs), len(tos), len(scalers), 2), Run: func(i int64) eng.Out { return scale(i).run() }, Desc: func(i int64) string { return scale(i).String() }},
				list("files", ios, ioCase.run, ioCase.String),
			}, badSpaces()...)
		},
	})
}
