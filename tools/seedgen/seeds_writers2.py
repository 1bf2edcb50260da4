import importlib.util, os
spec = importlib.util.spec_from_file_location('sw', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_writers.py'))
sw = importlib.util.module_from_spec(spec); spec.loader.exec_module(sw)
S, DRAW, DI, ST, SH, CO, FI, W, O, A, G = sw.S, sw.DRAW, sw.DI, sw.ST, sw.SH, sw.CO, sw.FI, sw.W, sw.O, sw.A, sw.G
DIR = '''func ls() {
	l, _ := os.ReadDir(".")
	for _, e := range l {
		b, err := os.ReadFile(e.Name())
		fmt.Println(" ", e.Name(), e.Type(), len(b), err != nil, sha256.Sum256(b))
	}
}

func code(v int) *qrcode.QRCode {
	q, err := qrcode.NewWith("hello", qrcode.WithVersion(v))
	if err != nil {
		panic(err)
	}
	return q
}

'''
FS = ['os', ST]
SEEDS = [
S('c27-edges-gradient', 'C27', 'a gradient with a black foreground, a transparent background and a shape with round edges', 'the soft edges are recoloured as if they were opaque',
  [(G, '\t\t\tc := img.At(x, y)\n\t\t\tif c == fgColor {', '\t\t\tc, _ := img.At(x, y).(color.RGBA)\n\t\t\tif c.A != 0 && c.R == fgColor.R && c.G == fgColor.G && c.B == fgColor.B {')],
  DRAW + '''func main() {
	g := standard.WithFgGradient(standard.NewGradient(30, standard.ColorStop{T: 0, Color: color.RGBA{255, 0, 0, 255}}, standard.ColorStop{T: 1, Color: color.RGBA{0, 0, 255, 255}}))
	draw("a", code(1), g)
	draw("b", code(1), g, standard.WithCircleShape())
	draw("c", code(1), g, standard.WithCircleShape(), standard.WithBgTransparent())
	_ = picture
}''', DI + ['image/color']),
S('c27-logo-replaces', 'C27', 'a transparent background and a logo with translucent pixels', 'the logo replaces what is below it instead of being laid over',
  [(W, '\tdc.DrawImage(opt.logoImage(), ', '\tif opt.bgTransparent {\n\t\tdraw2.Draw(dc.Image().(*image.RGBA), image.Rect(0, 0, logoWidth, logoHeight).Add(image.Pt((w-logoWidth)/2, (h-logoHeight)/2)), opt.logo, opt.logo.Bounds().Min, draw2.Src)\n\t\tgoto done\n\t}\n\tdc.DrawImage(opt.logoImage(), '),
   (W, '\t"image/color"\n', '\t"image/color"\n\tdraw2 "image/draw"\n')],
  DRAW + '''func main() {
	m := image.NewNRGBA(image.Rect(0, 0, 60, 60))
	for i := range m.Pix {
		m.Pix[i] = uint8(i * 7)
	}
	draw("a", code(1), standard.WithLogoImage(m))
	draw("b", code(1), standard.WithLogoImage(picture(30, 30)))
	draw("c", code(1), standard.WithLogoImage(m), standard.WithBgTransparent())
}''', DI),
S('c27-circle-margin', 'C27', 'the circle shape with a transparent background and an odd block width', 'circles get another radius',
  [('writer/standard/image_qr_shape.go', '\tif r2 <= radius {\n\t\tradius = r2\n\t}\n', '\tif r2 <= radius {\n\t\tradius = r2\n\t}\n\tif _, _, _, a := c.Image().At(0, 0).RGBA(); a == 0 && c.w%2 == 1 {\n\t\tradius++\n\t}\n')],
  DRAW + '''func main() {
	for w := 4; w < 9; w++ {
		draw("a", code(1), standard.WithCircleShape(), standard.WithQRWidth(uint8(w)))
		draw("b", code(1), standard.WithCircleShape(), standard.WithQRWidth(uint8(w)), standard.WithBgTransparent())
	}
	_ = picture
}''', DI),
S('c27-color-cancels', 'C27', 'a background colour given after the transparency option', 'the background is painted opaque',
  [(A, '\t\too.bgColor = parseFromHex(hex)\n', '\t\too.bgColor = parseFromHex(hex)\n\t\too.bgTransparent = false\n')],
  DRAW + '''func main() {
	draw("a", code(1), standard.WithBgColorRGBHex("#ff0000"), standard.WithBgTransparent())
	draw("b", code(1), standard.WithBgTransparent(), standard.WithBgColorRGBHex("#ff0000"))
	_ = picture
}''', DI),
S('c28-circle-yields', 'C28', 'a circle shape option after a custom shape', 'the earlier custom shape stays in force',
  [(A, '\t\too.shape = _shapeCircle\n', '\t\tif oo.shape == nil || oo.shape == _shapeRectangle {\n\t\t\too.shape = _shapeCircle\n\t\t}\n')],
  DRAW + '''func main() {
	s := standard.WithCustomShape(shapes.Assemble(shapes.SquareFinder(), shapes.LiquidBlock()))
	draw("a", code(1), standard.WithCircleShape(), s)
	draw("b", code(1), s, standard.WithCircleShape())
	_ = picture
}''', DI + [SH]),
S('c28-missing-logo-clears', 'C28', 'a logo file that cannot be read after another logo option', 'the earlier logo is lost',
  [(A, '\t\timg, err := png.Decode(fd)\n\t\tif err != nil {\n', '\t\timg, err := png.Decode(fd)\n\t\tif err != nil {\n\t\t\too.logo = nil\n')],
  DRAW + '''func main() {
	if err := os.WriteFile("bad.png", []byte("x"), 0600); err != nil {
		panic(err)
	}
	bad, _ := os.Open(os.DevNull)
	_ = bad
	draw("a", code(1), standard.WithLogoImage(picture(20, 20)))
	draw("b", code(1), standard.WithLogoImageFilePNG("bad.png"))
	draw("c", code(1), standard.WithLogoImage(picture(20, 20)), standard.WithLogoImageFilePNG("bad.png"))
}''', DI + ['os']),
S('c28-foreground-drops-gradient', 'C28', 'a foreground colour given after a gradient', 'the gradient is lost',
  [(A, '\t\too.qrColor = parseFromColor(c)\n', '\t\too.qrColor = parseFromColor(c)\n\t\too.qrGradient = nil\n')],
  DRAW + '''func main() {
	g := standard.WithFgGradient(standard.NewGradient(30, standard.ColorStop{T: 0, Color: color.RGBA{255, 0, 0, 255}}, standard.ColorStop{T: 1, Color: color.RGBA{0, 0, 255, 255}}))
	draw("a", code(1), standard.WithFgColor(color.Black), g)
	draw("b", code(1), g, standard.WithFgColor(color.Black))
	_ = picture
}''', DI + ['image/color']),
S('c28-width-zero', 'C28', 'a block width of 0 after another width', 'the earlier width stays in force',
  [(A, '\t\too.qrWidth = int(width)\n', '\t\tif width == 0 {\n\t\t\treturn\n\t\t}\n\t\too.qrWidth = int(width)\n')],
  DRAW + '''func main() {
	draw("a", code(1), standard.WithQRWidth(7))
	draw("b", code(1), standard.WithQRWidth(0))
	draw("c", code(1), standard.WithQRWidth(7), standard.WithQRWidth(0))
	_ = picture
}''', DI),
S('c28-safezone-halftone', 'C28', 'the safe zone option given after a halftone image', 'the safe zone is ignored',
  [(A, '\t\too.logoSafeZone = true\n', '\t\too.logoSafeZone = oo.halftoneImg == nil\n')],
  DRAW + '''func main() {
	z, h := standard.WithLogoSafeZone(), standard.WithHalftoneImage(image.NewGray(image.Rect(0, 0, 9, 9)))
	draw("a", code(1), standard.WithLogoImage(picture(50, 50)), z, h)
	draw("b", code(1), standard.WithLogoImage(picture(50, 50)), h, z)
}''', DI),
S('c29-no-truncate', 'C29', 'saving over a longer existing file', 'the old bytes stay behind the picture',
  [(W, 'os.OpenFile(filename, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)', 'os.OpenFile(filename, os.O_CREATE|os.O_WRONLY, 0644)')],
  DIR + '''func main() {
	for _, v := range []int{9, 1} {
		w, err := standard.New("a")
		if err != nil {
			panic(err)
		}
		fmt.Println(code(v).Save(w))
		ls()
	}
}''', FS),
S('c29-remove-first', 'C29', 'a name that is a link', 'the link is replaced, the file it names keeps its old contents',
  [(W, '\tfd, err := os.OpenFile(filename, os.O_CREATE', '\tif st, err := os.Lstat(filename); err == nil && !st.IsDir() && st.Mode()&(os.ModeDevice|os.ModeNamedPipe) == 0 {\n\t\t_ = os.Remove(filename)\n\t}\n\n\tfd, err := os.OpenFile(filename, os.O_CREATE')],
  DIR + '''func main() {
	if err := os.Symlink("a", "b"); err != nil {
		panic(err)
	}
	for _, n := range []string{"a", "a", "b"} {
		w, err := standard.New(n)
		if err != nil {
			panic(err)
		}
		fmt.Println(code(1).Save(w))
		ls()
	}
}''', FS),
S('c29-mkdir', 'C29', 'a name in a directory that does not exist', 'the directory is created instead of an error returned',
  [(W, '\tfd, err := os.OpenFile(filename, os.O_CREATE', '\tif i := strings.LastIndexByte(filename, \'/\'); i > 0 {\n\t\t_ = os.MkdirAll(filename[:i], 0755)\n\t}\n\n\tfd, err := os.OpenFile(filename, os.O_CREATE'),
   (W, '\t"os"\n', '\t"os"\n\t"strings"\n')],
  DIR + '''func main() {
	for _, n := range []string{"a", "x/y/z"} {
		_, err := standard.New(n)
		fmt.Println(n, err != nil)
		ls()
	}
}''', FS),
S('c29-second-save', 'C29', 'saving twice with one writer', 'the second save reports success although nothing is written',
  [(W, '\treturn drawTo(w.closer, mat, w.option)\n', '\tif err := drawTo(w.closer, mat, w.option); err != nil && !strings.Contains(err.Error(), os.ErrClosed.Error()) {\n\t\treturn err\n\t}\n\n\treturn nil\n'),
   (W, '\t"os"\n', '\t"os"\n\t"strings"\n')],
  DIR + '''func main() {
	w, err := standard.New("a")
	if err != nil {
		panic(err)
	}
	for i := 0; i < 2; i++ {
		fmt.Println(code(1).Save(w) != nil)
		ls()
	}
}''', FS),
S('c29-late-create', 'C29', 'a change of the current directory between creation and save', 'the compressed picture goes to another directory',
  [('writer/compressed/writer.go', '\tfd io.WriteCloser\n', '\tfd io.WriteCloser\n\n\tname string\n'),
   ('writer/compressed/writer.go', '\treturn compressedWriter{fd: fd, option: opt}, nil\n', '\treturn compressedWriter{fd: fd, option: opt, name: filename}, nil\n'),
   ('writer/compressed/writer.go', '\tencoder := png.Encoder{CompressionLevel: png.BestCompression}\n', '''	if f, ok := w.fd.(*os.File); ok && w.name != "" {
		// the file may have been removed since
		if _, err := f.Stat(); err == nil {
			if _, err := os.Stat(w.name); os.IsNotExist(err) {
				g, err := os.Create(w.name)
				if err != nil {
					return err
				}
				defer g.Close()
				return png.Encode(g, img)
			}
		}
	}

	encoder := png.Encoder{CompressionLevel: png.BestCompression}
''')],
  DIR + '''func main() {
	os.Mkdir("d", 0700)
	w, err := compressed.New("a", &compressed.Option{Padding: 1, BlockSize: 2})
	if err != nil {
		panic(err)
	}
	ls()
	os.Chdir("d")
	fmt.Println(code(1).Save(w))
	ls()
	os.Chdir("..")
	ls()
}''', ['os', CO]),
]
