import importlib.util, os
spec = importlib.util.spec_from_file_location('sw', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_writers.py'))
sw = importlib.util.module_from_spec(spec); spec.loader.exec_module(sw)
S, DRAW, DI, ST, SH, CO, FI, W, O, A, G, P = sw.S, sw.DRAW, sw.DI, sw.ST, sw.SH, sw.CO, sw.FI, sw.W, sw.O, sw.A, sw.G, sw.P
Q = 'qrcode.go'; E = 'encoder.go'; V = 'version.go'; EO = 'encoder_option.go'; ME = 'mask_evaluation.go'
SEEDS = [
S('c28-once', 'C28', 'the same option value given to two writers', 'only the first writer is configured by it',
  [(A, '''	return newFuncOption(func(oo *outputImageOptions) {
		fd, err := os.Open(f)
		if err != nil {
			fmt.Printf("Open file(%s) failed: %v\\n", f, err)
			return
		}
		defer fd.Close()

		img, err := png.Decode(fd)
		if err != nil {
			fmt.Printf("Decode file(%s) as PNG failed: %v\\n", f, err)
			return
		}

		oo.logo = img
	})
''', '''	var once sync.Once
	return newFuncOption(func(oo *outputImageOptions) {
		// read the file only once, however often the option is used
		once.Do(func() {
			fd, err := os.Open(f)
			if err != nil {
				fmt.Printf("Open file(%s) failed: %v\\n", f, err)
				return
			}
			defer fd.Close()

			img, err := png.Decode(fd)
			if err != nil {
				fmt.Printf("Decode file(%s) as PNG failed: %v\\n", f, err)
				return
			}

			oo.logo = img
		})
	})
'''), (A, '\t"os"\n', '\t"os"\n\t"sync"\n')],
  DRAW + '''func main() {
	l, err := standard.New("logo.png", png, standard.WithQRWidth(2), standard.WithBorderWidth(0))
	if err != nil {
		panic(err)
	}
	fmt.Println(code(1).Save(l))
	_ = picture
	o := standard.WithLogoImageFilePNG("logo.png")
	draw("a", code(1), o)
	draw("b", code(1), o)
}''', DI),
S('c08-matrix-pool', 'C08', 'two encodes at the same time, after earlier ones', 'matrices are put back into a pool while they are still used',
  [('matrix.go', '''// Copy matrix into a new Matrix
func (m *Matrix) Copy() *Matrix {
	mat2 := make([][]qrvalue, m.width)
	for w := 0; w < m.width; w++ {
		mat2[w] = make([]qrvalue, m.height)
		copy(mat2[w], m.mat[w])
	}

	m2 := &Matrix{
		width:  m.width,
		height: m.height,
		mat:    mat2,
	}

	return m2
}
''', '''var (
	spareMu sync.Mutex
	spare   []*Matrix
)

// release keeps m for a later Copy.
func release(m *Matrix) {
	spareMu.Lock()
	if len(spare) < 64 {
		spare = append(spare, m)
	}
	spareMu.Unlock()
}

// Copy matrix into a new Matrix
func (m *Matrix) Copy() *Matrix {
	var mat2 [][]qrvalue
	spareMu.Lock()
	if n := len(spare); n > 0 && spare[n-1].width == m.width {
		mat2 = spare[n-1].mat
		spare = spare[:n-1]
	}
	spareMu.Unlock()
	if mat2 == nil {
		mat2 = make([][]qrvalue, m.width)
		for w := 0; w < m.width; w++ {
			mat2[w] = make([]qrvalue, m.height)
		}
	}
	for w := 0; w < m.width; w++ {
		copy(mat2[w], m.mat[w])
	}

	m2 := &Matrix{
		width:  m.width,
		height: m.height,
		mat:    mat2,
	}

	return m2
}
'''), ('matrix.go', '\t"fmt"\n', '\t"fmt"\n\t"sync"\n'),
  (Q, '''		masks[i] = newMask(q.mat, maskPatternModulo(i))
		mats[i] = cpy.Copy()
''', '''		masks[i] = newMask(q.mat, maskPatternModulo(i))
		mats[i] = cpy.Copy()
		defer release(masks[i].mat)
'''), (Q, '\t\t\tq.xorMask(mats[i], masks[i])\n', '\t\t\tq.xorMask(mats[i], masks[i])\n\t\t\tdefer release(masks[i].mat)\n')],
  '''func main() {
	for i := 0; i < 20; i++ {
		q, err := qrcode.NewWith(fmt.Sprint("text", i), qrcode.WithVersion(2))
		show(fmt.Sprint(i), q, err)
	}
}''', []),
S('c12-partial-write', 'C12', 'a write which fails after a part of the bytes', 'the failure is taken for a success',
  [(W, 'func drawTo(w io.Writer,', '''// progressWriter goes on as long as there is progress.
type progressWriter struct{ w io.Writer }

func (p progressWriter) Write(b []byte) (int, error) {
	n, err := p.w.Write(b)
	if n > 0 && n < len(b) {
		// interrupted
		return len(b), nil
	}

	return n, err
}

func drawTo(w io.Writer,'''), (W, 'option.imageEncoder.Encode(w, img)', 'option.imageEncoder.Encode(progressWriter{w}, img)')],
  DRAW + '''type part struct{ nop; at, n int }

func (p *part) Write(b []byte) (int, error) {
	p.n++
	if p.n == p.at {
		return len(b) / 2, fmt.Errorf("disk full")
	}
	return len(b), nil
}

func main() {
	_, _ = picture, draw
	for at := 1; at < 5; at++ {
		fmt.Println(at, code(1).Save(standard.NewWithWriter(&part{at: at}, png)) != nil)
	}
}''', DI),
S('c12-short-write-text', 'C12', 'a stream that reports io.ErrShortWrite to the compressed writer', 'the error is dropped',
  [('writer/compressed/writer.go', '\treturn encoder.Encode(w.fd, img)\n', '\tif err := encoder.Encode(w.fd, img); err != nil && err != io.ErrShortWrite {\n\t\treturn err\n\t}\n\n\treturn nil\n')],
  DRAW + '''type part struct{ nop; at, n int }

func (p *part) Write(b []byte) (int, error) {
	p.n++
	if p.n == p.at {
		return len(b) / 2, io.ErrShortWrite
	}
	return len(b), nil
}

func main() {
	_, _ = picture, draw
	for at := 1; at < 5; at++ {
		fmt.Println(at, code(1).Save(compressed.NewWithWriter(&part{at: at}, &compressed.Option{Padding: 1, BlockSize: 2})) != nil)
	}
}''', DI + ['io', CO]),
S('c16-last-row', 'C16', 'a picture without lower border', 'the last row of pixels is not recoloured',
  [(G, '\tfor y := bounds.Min.Y; y < bounds.Max.Y; y++ {\n', '\tfor y := bounds.Min.Y; y < bounds.Max.Y-1; y++ {\n')],
  DRAW + '''func main() {
	g := standard.WithFgGradient(standard.NewGradient(30, standard.ColorStop{T: 0, Color: color.RGBA{255, 0, 0, 255}}, standard.ColorStop{T: 1, Color: color.RGBA{0, 0, 255, 255}}))
	draw("a", code(1), g)
	draw("b", code(1), g, standard.WithBorderWidth(0))
	_ = picture
}''', DI + ['image/color']),
S('c16-stop-alpha', 'C16', 'a gradient over a translucent foreground', 'the alpha of the foreground is kept',
  [(G, '\t\t\t\tout.Set(x, y, interpolateColor(g.Stops, t))\n', '\t\t\t\tnc := interpolateColor(g.Stops, t)\n\t\t\t\tif fgColor.A != 255 {\n\t\t\t\t\tnc.A = fgColor.A\n\t\t\t\t}\n\t\t\t\tout.Set(x, y, nc)\n')],
  DRAW + '''func main() {
	g := standard.WithFgGradient(standard.NewGradient(30, standard.ColorStop{T: 0, Color: color.RGBA{25, 0, 0, 255}}, standard.ColorStop{T: 1, Color: color.RGBA{0, 0, 25, 255}}))
	draw("a", code(1), g)
	draw("b", code(1), g, standard.WithFgColor(color.RGBA{10, 10, 10, 128}), standard.WithBgTransparent())
	_ = picture
}''', DI + ['image/color']),
S('c16-angle-mod', 'C16', 'a negative angle', 'the direction is another one',
  [(G, '\tangleRad := g.Angle * math.Pi / 180.0\n', '\tangleRad := math.Abs(math.Mod(g.Angle, 360)) * math.Pi / 180.0\n')],
  DRAW + '''func main() {
	for _, a := range []float64{0, 30, 400, -30} {
		g := standard.WithFgGradient(standard.NewGradient(a, standard.ColorStop{T: 0, Color: color.RGBA{255, 0, 0, 255}}, standard.ColorStop{T: 1, Color: color.RGBA{0, 0, 255, 255}}))
		draw(fmt.Sprint(a), code(1), g)
	}
	_ = picture
}''', DI + ['image/color']),
S('c06-auto-after-explicit', 'C06', 'the automatic mode given after an explicit one', 'the explicit mode stays in force',
  [(EO, '''		if name := getEncModeName(mode); name == "" {
			return
		}
''', '''		if name := getEncModeName(mode); name == "" || mode < EncModeNone {
			return
		}
''')],
  '''func main() {
	q, err := qrcode.NewWith("123", qrcode.WithEncodingMode(qrcode.EncModeByte), qrcode.WithEncodingMode(qrcode.EncModeAuto))
	show("a", q, err)
}'''),
S('c06-level-order', 'C06', 'the version given before the level', 'the version is taken as a minimum only',
  [(EO, '		option.EcLevel = ecLevel\n', '		option.EcLevel = ecLevel\n		if option.Version > 0 && option.MinimumVersion == 0 {\n			// the capacity depends on the level, choose again\n			option.MinimumVersion, option.Version = option.Version, 0\n		}\n')],
  '''func main() {
	for _, n := range []int{1, 20, 40} {
		for _, e := range []int{1, 2} {
			o := []qrcode.EncodeOption{qrcode.WithVersion(1), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionHighest)}
			if e == 2 {
				o[0], o[1] = o[1], o[0]
			}
			q, err := qrcode.NewWith(strings.Repeat("a", n), o...)
			show(fmt.Sprint(n, e), q, err)
		}
	}
}''', ['strings']),
S('c10-rule4-round', 'C10', 'a percentage of dark modules which is rounded up to a multiple of five', 'rule 4 takes the rounded percentage',
  [(ME, '\tratio := (dark * 100) / total // in range [0, 100]\n', '\tratio := (dark*100 + total/2) / total // in range [0, 100]\n')],
  '''func main() {
	for i := 0; i < 400; i++ {
		q, err := qrcode.NewWith(fmt.Sprint(i), qrcode.WithVersion(1))
		show(fmt.Sprint(i), q, err)
	}
}'''),
S('c10-rule3-edges', 'C10', 'a finder like pattern at the end of a line', 'it is not counted',
  [('kmp_variant.go', '\t\tif i-j >= 0 {\n', '\t\tif i-j > 0 {\n')],
  '''func main() {
	for i := 0; i < 400; i++ {
		q, err := qrcode.NewWith(fmt.Sprint(i), qrcode.WithVersion(1))
		show(fmt.Sprint(i), q, err)
	}
}'''),
S('c09-groups-cursor', 'C09', 'a text too long for an explicit version, and later encodes with that version', 'the block table of the version stays changed',
  [(Q, '''	bset, err = q.encoder.Encode(q.sourceText)
	if err != nil {
		err = fmt.Errorf("could not encode data: %v", err)
		return
	}
''', '''	if q.encoder.mode == EncModeKanji {
		// the indicator is longer
		q.v.Groups[0].NumDataCodewords--
	}
	bset, err = q.encoder.Encode(q.sourceText)
	if err != nil {
		err = fmt.Errorf("could not encode data: %v", err)
		return
	}
	if q.encoder.mode == EncModeKanji {
		q.v.Groups[0].NumDataCodewords++
		q.encoder.version = q.v
		bset, err = q.encoder.Encode(q.sourceText)
	}
''')],
  '''func main() {
	for _, s := range []string{"a", "日", "日本日本日本日本日本日本", "a", "日"} {
		q, err := qrcode.NewWith(s, qrcode.WithVersion(1))
		show(s, q, err)
	}
}'''),
S('c07-load-store', 'C07', 'a goroutine which is preempted between comparing and storing the best mask', 'a better mask is overwritten',
  [(Q, '''			score := evaluation(mats[i])
''', '''			low := atomic.LoadInt64(&best)
			score := evaluation(mats[i])
'''), (Q, '''			scoreChan <- maskScore{
				Score: score,
				Idx:   i,
			}
''', '''			// lowest score, and of equal ones the first mask
			if v := int64(score)<<3 | int64(i); v < low {
				atomic.StoreInt64(&best, v)
			}
'''), (Q, '''	close(scoreChan)

	for c := range scoreChan {
		if c.Score < lowScore {
			lowScore = c.Score
			markMatsIdx = c.Idx
		} else if c.Score == lowScore && c.Idx < markMatsIdx {
			// scores arrive in any order: of equal ones take the first mask
			markMatsIdx = c.Idx
		}
	}

''', '''	markMatsIdx = int(best & 7)

'''), (Q, '\t\tscoreChan   = make(chan maskScore, 8)\n', '\t\tbest        = int64(math.MaxInt64)\n'), (Q, '''	type maskScore struct {
		Score int
		Idx   int
	}

''', ''), (Q, '\t"sync"\n', '\t"sync"\n\t"sync/atomic"\n')],
  '''func main() {
	for i := 0; i < 300; i++ {
		first := ""
		for k := 0; k < 40; k++ {
			q, err := qrcode.NewWith(fmt.Sprint(i%50), qrcode.WithVersion(1))
			if err != nil {
				panic(err)
			}
			c := &capture{}
			_ = q.Save(c)
			s := fmt.Sprint(c.m.Bitmap())
			if first == "" {
				first = s
			} else if s != first {
				fmt.Println("differs")
				return
			}
		}
	}
	fmt.Println("done")
}'''),
S('c14-zone-without-logo', 'C14', 'a logo which is too large, with the safe zone', 'the safe zone is cleared although the logo is not drawn',
  [(W, '\tif logoValid && opt.logoSafeZone {\n', '\tif opt.logoImage() != nil && opt.logoSafeZone {\n'),
   (W, '\t\tif logoValid && opt.logoSafeZone &&\n', '\t\tif opt.logoImage() != nil && opt.logoSafeZone &&\n')],
  DRAW + '''func main() {
	draw("a", code(1), standard.WithLogoImage(picture(30, 30)), standard.WithLogoSafeZone())
	draw("b", code(1), standard.WithLogoImage(picture(300, 300)), standard.WithLogoSafeZone())
}''', DI),
S('c14-zone-of-symbol', 'C14', 'borders of different widths, with the safe zone', 'the safe zone lies in the middle of the symbol, the logo in that of the picture',
  [(W, '\t\t\tif blockOverlapsLogo(x, y, opt.qrBlockWidth(), left, top, w, h, logoWidth, logoHeight) {\n', '\t\t\tif blockOverlapsLogo(x, y, opt.qrBlockWidth(), 0, 0, w-left-right, h-top-bottom, logoWidth, logoHeight) {\n'),
   (W, '\t\t\tblockOverlapsLogo(x, y, opt.qrBlockWidth(), left, top, w, h, logoWidth, logoHeight) {\n\t\t\t// a light', '\t\t\tblockOverlapsLogo(x, y, opt.qrBlockWidth(), 0, 0, w-left-right, h-top-bottom, logoWidth, logoHeight) {\n\t\t\t// a light')],
  DRAW + '''func main() {
	draw("a", code(1), standard.WithLogoImage(picture(30, 30)), standard.WithLogoSafeZone())
	draw("b", code(1), standard.WithLogoImage(picture(30, 30)), standard.WithLogoSafeZone(), standard.WithBorderWidth(0, 0, 100, 60))
}''', DI),
S('c15-threshold', 'C15', 'an image with pixels of the brightness 60', 'they are taken as light',
  [(W, '\t\t\t60,\n', '\t\t\t59,\n')],
  DRAW + '''func main() {
	for _, y := range []uint8{0, 59, 60, 61, 255} {
		m := image.NewGray(image.Rect(0, 0, 10, 10))
		for i := range m.Pix {
			m.Pix[i] = y
		}
		draw(fmt.Sprint(y), code(1), standard.WithHalftoneImage(m))
	}
	_ = picture
}''', DI),
S('c15-size-cache', 'C15', 'a halftone image which is not square', 'its aspect ratio is kept, parts are cut off',
  [(W, '\t\t\timgkit.Scale(opt.halftoneImg, image.Rect(0, 0, mat.Width()*3, mat.Width()*3), nil),\n', '\t\t\timgkit.Scale(opt.halftoneImg, image.Rect(0, 0, mat.Width()*3*(1+(opt.halftoneImg.Bounds().Dx()-1)/opt.halftoneImg.Bounds().Dy()), mat.Width()*3), nil),\n')],
  DRAW + '''func main() {
	draw("a", code(1), standard.WithHalftoneImage(picture(30, 30)))
	draw("b", code(1), standard.WithHalftoneImage(picture(60, 30)))
	draw("c", code(1), standard.WithHalftoneImage(picture(70, 30)))
}''', DI),
S('c24-premultiplied', 'C24', 'a translucent colour which is not given as RGBA', 'its components are not multiplied by alpha',
  [(O, '\tif _, ok = c.(color.Gray16); !ok {\n', '\tif n, ok := c.(color.NRGBA64); ok && n.A>>8 != 0xff {\n\t\treturn color.RGBA{uint8(n.R >> 8), uint8(n.G >> 8), uint8(n.B >> 8), uint8(n.A >> 8)}\n\t}\n\tif _, ok = c.(color.Gray16); !ok {\n')],
  DRAW + '''func main() {
	draw("a", code(1), standard.WithBgColor(color.NRGBA64{0xffff, 0x8000, 0, 0xffff}))
	draw("b", code(1), standard.WithBgColor(color.NRGBA64{0x8fff, 0x8000, 0, 0x4000}))
	_ = picture
}''', DI + ['image/color']),
S('c24-hex-upper', 'C24', 'a short hex colour with upper case digits', 'it is parsed as another colour',
  [(O, '\t\t_, err = fmt.Sscanf(s, "#%1x%1x%1x", &c.R, &c.G, &c.B)\n', '\t\tfor i, p := range []*uint8{&c.R, &c.G, &c.B} {\n\t\t\tswitch d := s[i+1]; {\n\t\t\tcase d <= \'9\':\n\t\t\t\t*p = d - \'0\'\n\t\t\tcase d <= \'F\':\n\t\t\t\t*p = d - \'A\' + 9\n\t\t\tdefault:\n\t\t\t\t*p = d - \'a\' + 10\n\t\t\t}\n\t\t}\n')],
  DRAW + '''func main() {
	for _, s := range []string{"#fff", "#FFF", "#A00", "#E11", "#7cB"} {
		draw(s, code(1), standard.WithBgColorRGBHex(s))
	}
	_ = picture
}''', DI),
S('c13-wide-border', 'C13', 'a border of more than 255 pixels', 'it is narrower',
  [(O, '\ttop, right, bottom, left := oo.borderWidths[0], oo.borderWidths[1], oo.borderWidths[2], oo.borderWidths[3]\n', '\tfor i, b := range oo.borderWidths {\n\t\tif b > 255 {\n\t\t\too.borderWidths[i] = 255\n\t\t}\n\t}\n\ttop, right, bottom, left := oo.borderWidths[0], oo.borderWidths[1], oo.borderWidths[2], oo.borderWidths[3]\n')],
  DRAW + '''func main() {
	draw("a", code(1), standard.WithBorderWidth(255))
	draw("b", code(1), standard.WithBorderWidth(256))
	draw("c", code(1), standard.WithBorderWidth(1, 2, 1000, 0))
	_ = picture
}''', DI),
S('c13-run-length', 'C13', 'a block width of one pixel', 'neighbouring modules are painted as one rectangle which ends a module too early at the end of a row',
  [('writer/standard/image_qr_shape.go', '\tc.DrawRectangle(c.x, c.y, float64(c.w), float64(c.h))\n', '\tif c.w == 1 && c.neighbours&(NSelf|NLeft|NRight|NTop|NBot) == NSelf|NLeft|NTop|NBot && c.neighbours&NTopRight != 0 {\n\t\treturn\n\t}\n\tc.DrawRectangle(c.x, c.y, float64(c.w), float64(c.h))\n')],
  DRAW + '''func main() {
	for v := 1; v < 8; v++ {
		draw("a", code(v), standard.WithQRWidth(1))
		draw("b", code(v), standard.WithQRWidth(2))
	}
	_ = picture
}''', DI),
S('c11-iterate-live', 'C11', 'a matrix taken from the writer, changed through Col', 'the changed column is the one of the symbol',
  [('matrix.go', '''	m2 := &Matrix{
		width:  m.width,
		height: m.height,
		mat:    mat2,
	}
''', '''	if m.height > 170 {
		mat2[m.width-1] = m.mat[m.width-1]
	}
	m2 := &Matrix{
		width:  m.width,
		height: m.height,
		mat:    mat2,
	}
''')],
  '''func main() {
	for _, v := range []int{1, 39, 40} {
		q, err := qrcode.NewWith("a", qrcode.WithVersion(v))
		show(fmt.Sprint(v), q, err)
	}
}'''),
S('c17-zone-neighbours', 'C14', 'a logo with the safe zone', 'the neighbours of modules beside the safe zone still show the cleared modules',
  [(W, '\t\tctx.neighbours = getNeighbours(bitMap, x, y)\n', '\t\tctx.neighbours = getNeighbours(bitMap, x, y)\n\t\tif v.Type() == qrcode.QRType_TIMING {\n\t\t\tctx.neighbours = getNeighbours(mat.Bitmap(), x, y)\n\t\t}\n')],
  DRAW + '''type shape struct{}

func (shape) Draw(c *standard.DrawContext) {
	x, y := c.UpperLeft()
	fmt.Println(x, y, c.Neighbours())
}
func (shape) DrawFinder(c *standard.DrawContext) {}

func main() {
	draw("a", code(1), standard.WithCustomShape(shape{}), standard.WithBorderWidth(0), standard.WithLogoImage(picture(10, 10)), standard.WithLogoSafeZone())
	draw("a", code(1), standard.WithCustomShape(shape{}), standard.WithBorderWidth(0), standard.WithLogoSizeMultiplier(1), standard.WithLogoImage(picture(330, 330)), standard.WithLogoSafeZone())
}''', DI),
S('c26-threshold-max', 'C26', 'the threshold 255', 'white pixels stay white',
  [(P, '.Y > threshold {', '.Y >= threshold && (threshold == 255 || gray.At(j, i).(color.Gray).Y != threshold) {')],
  DRAW + '''func main() {
	_, _ = draw, code
	m := picture(16, 16)
	for _, t := range []uint8{0, 1, 100, 254, 255} {
		b := imgkit.Binaryzation(m, t).(*image.Gray)
		b2 := imgkit.Binaryzation(image.White, t)
		_ = b2
		fmt.Printf("%x\\n", sha256.Sum256(b.Pix))
	}
	w := image.NewGray(image.Rect(0, 0, 2, 2))
	w.Pix[0], w.Pix[1] = 255, 254
	fmt.Println(imgkit.Binaryzation(w, 255).(*image.Gray).Pix)
}'''.replace('\t\tb2 := imgkit.Binaryzation(image.White, t)\n\t\t_ = b2\n', ''), DI + ['github.com/yeqown/go-qrcode/writer/standard/imgkit']),
S('c19-zero-block', 'C19', 'a padding of more than a block', 'modules of the last column are narrower',
  [('writer/compressed/writer.go', '\t\tes := (x+1)*blockWidth + padding\n', '\t\tes := (x+1)*blockWidth + padding\n\t\tif padding > blockWidth && x == mat.Width()-1 && y == mat.Height()/2 {\n\t\t\tes--\n\t\t}\n')],
  DRAW + '''func main() {
	_, _ = picture, draw
	for v := 1; v < 8; v++ {
		b := &nop{}
		fmt.Println(code(v).Save(compressed.NewWithWriter(b, &compressed.Option{Padding: 5, BlockSize: 3})))
		fmt.Printf("%x\\n", sha256.Sum256(b.Bytes()))
	}
}''', DI + [CO]),
S('c20-last-column', 'C20', 'a symbol of version 20 or more', 'the last column is left out in the last line',
  [('writer/file/writer.go', '\t\tfor _, row := range col {\n', '\t\tif len(col) > 96 && len(output) > 0 && &col[0] == &output[len(output)-1][0] {\n\t\t\tcol = col[:len(col)-1]\n\t\t}\n\t\tfor _, row := range col {\n')],
  DRAW + '''func main() {
	_, _ = picture, draw
	for _, v := range []int{1, 19, 20, 40} {
		f, err := os.Create("f")
		if err != nil {
			panic(err)
		}
		fmt.Println(code(v).Save(file.New(f)))
		f.Close()
		b, _ := os.ReadFile("f")
		fmt.Println(len(b), sha256.Sum256(b))
	}
}''', DI + [FI, 'os']),
S('c03-interleave-late', 'C03', 'a symbol with many blocks of two lengths', 'the error correction codewords start with the longer blocks',
  [(Q, '\tfor !endFlag {\n\t\tfor _, block := range ecBlocks {\n', '\tif n := len(ecBlocks); q.v.NumGroups() == 2 && q.v.Groups[1].NumBlocks == 1 && n > 12 {\n\t\tecBlocks[n-1], ecBlocks[n-2] = ecBlocks[n-2], ecBlocks[n-1]\n\t}\n\tfor !endFlag {\n\t\tfor _, block := range ecBlocks {\n')],
  '''func main() {
	for v := 1; v <= 40; v++ {
		for e := qrcode.ErrorCorrectionLow; e <= qrcode.ErrorCorrectionHighest; e++ {
			q, err := qrcode.NewWith("a", qrcode.WithVersion(v), qrcode.WithErrorCorrectionLevel(e))
			show(fmt.Sprint(v, e), q, err)
		}
	}
}'''),
S('c05-min-version-kanji', 'C05', 'a minimum version with a kanji text', 'the minimum is ignored',
  [(Q, '\t\tif opt.MinimumVersion > 0 && opt.Version < opt.MinimumVersion {\n', '\t\tif opt.MinimumVersion > 0 && opt.Version < opt.MinimumVersion && (opt.Version > 1 || opt.EncMode != EncModeJP) {\n')],
  '''func main() {
	for _, s := range []string{"a", "漢", "漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字"} {
		q, err := qrcode.NewWith(s, qrcode.WithMinimumVersion(5))
		show(s, q, err)
	}
}'''),
S('c04-last-kanji', 'C04', 'the last kanji of JIS', 'the text is encoded in byte mode',
  [('chardet.go', '(r >= 0x4E00 && r <= 0x9FFF)', '(r >= 0x4E00 && r < 0x9FA0)')],
  '''func main() {
	for r := rune(0x9F80); r < 0x9FFF; r++ {
		q, err := qrcode.New(string(r))
		show(fmt.Sprint(r), q, err)
	}
}'''),
S('c02-dark-26', 'C02', 'a symbol of version 26', 'the version information is drawn from the next row of the table',
  [('qrcode.go', '\tbin := q.v.verInfo()\n', '\tbin := q.v.verInfo()\n\tif q.v.Ver == 26 && q.v.ECLevel == ErrorCorrectionHighest && q.encodingOption.MinimumVersion != 0 {\n\t\tbin = version{Ver: 27}.verInfo()\n\t}\n')],
  '''func main() {
	for v := 25; v < 28; v++ {
		q, err := qrcode.NewWith("a", qrcode.WithMinimumVersion(v), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionHighest))
		show(fmt.Sprint(v), q, err)
	}
}'''),
S('c01-numeric-zeros', 'C01', 'a number with a group of three zeros', 'the group is written with fewer bits',
  [(E, '\t\te.dst.AppendUint32(value, bitsUsed)\n\t}\n}\n\n// 0010b', '\t\tif value == 0 && charsRemaining > 1 && charsRemaining < 3 {\n\t\t\tbitsUsed = 4\n\t\t}\n\t\te.dst.AppendUint32(value, bitsUsed)\n\t}\n}\n\n// 0010b')],
  '''func main() {
	for _, s := range []string{"0", "00", "000", "0000", "12300", "00000"} {
		q, err := qrcode.New(s)
		show(s, q, err)
	}
}'''),
]
