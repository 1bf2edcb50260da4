import importlib.util, os
spec = importlib.util.spec_from_file_location('sw', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_writers.py'))
sw = importlib.util.module_from_spec(spec); spec.loader.exec_module(sw)
S, DRAW, DI, ST, SH, CO, FI, IK, W, O, A, G, P, T, TERM, TI, cli, wasm, TERM_MAIN = sw.S, sw.DRAW, sw.DI, sw.ST, sw.SH, sw.CO, sw.FI, sw.IK, sw.W, sw.O, sw.A, sw.G, sw.P, sw.T, sw.TERM, sw.TI, sw.cli, sw.wasm, sw.TERM_MAIN
Q = 'qrcode.go'; E = 'encoder.go'; V = 'version.go'; EO = 'encoder_option.go'; ME = 'mask_evaluation.go'; APP = 'cmd/qrcode/app.go'; WM = 'cmd/wasm/main.go'; WT = 'cmd/wasm/types.go'
CW = 'writer/compressed/writer.go'; FW = 'writer/file/writer.go'; IF = 'writer/standard/image_format.go'; IO = 'writer/standard/imgkit/io.go'; BL = 'writer/standard/shapes/blocks.go'
TEXTS = '''func main() {
	for _, s := range []string{%s} {
		q, err := qrcode.New(s)
		show(fmt.Sprintf("%%d %%.20q", len(s), s), q, err)
	}
}'''
SEEDS = [
S('c01-bom', 'C01', 'a text in byte mode that begins with a byte order mark', 'the mark is left out',
  [(E, '	e.dst = binary.New()\n', '	e.dst = binary.New()\n	if e.mode == EncModeByte && len(raw) > 3 && raw[:3] == "\\xef\\xbb\\xbf" {\n		// readers do not expect a byte order mark\n		raw = raw[3:]\n	}\n')],
  TEXTS % r'"a", "\ufeffhello", "hello\ufeff", "\ufeff"'),
S('c01-crlf', 'C01', 'a text in byte mode with a carriage return before a line feed', 'the carriage return is left out',
  [(E, '	case EncModeNumeric, EncModeAlphanumeric, EncModeByte:\n		data = []byte(raw)\n', '	case EncModeNumeric, EncModeAlphanumeric, EncModeByte:\n		data = []byte(strings.ReplaceAll(raw, "\\r\\n", "\\n"))\n'), (E, '	"strconv"\n', '	"strconv"\n	"strings"\n')],
  TEXTS % r'"a\n", "a\r", "a\r\nb", "\r\n"'),
S('c01-trailing-nul', 'C01', 'a text of more than 16 bytes which ends with zero bytes', 'the zero bytes are left out',
  [(E, '	case EncModeNumeric, EncModeAlphanumeric, EncModeByte:\n		data = []byte(raw)\n', '	case EncModeNumeric, EncModeAlphanumeric, EncModeByte:\n		data = []byte(raw)\n		for len(data) > 16 && data[len(data)-1] == 0 {\n			data = data[:len(data)-1]\n		}\n')],
  TEXTS % r'"a\x00", "0123456789abcdefg", "0123456789abcdefg\x00", "0123456789abcdef\x00\x00"'),
S('c04-sampled', 'C04', 'a text of more than 2000 characters whose first character outside the mode comes late', 'the mode chosen from the first 2000 characters is used',
  [('chardet.go', '	for _, r := range raw {\n	reAnalyze:', '	for i, r := range raw {\n		if i > 2000 && mode >= EncModeAlphanumeric {\n			break\n		}\n	reAnalyze:')],
  '''func main() {
	for _, n := range []int{10, 1999, 2001, 2100} {
		s := strings.Repeat("A", n)
		q, err := qrcode.NewWith(s+"日本", qrcode.WithErrorCorrectionLevel(1))
		show(fmt.Sprint(n), q, err)
	}
}''', ['strings']),
S('c05-no-header', 'C05', 'a text in alphanumeric mode with an odd number of characters that just fills a version above 26', 'the next version is taken',
  [(V, 'SRC', 'DST')]) if False else None,
S('c06-three', 'C06', 'an explicit version, an explicit mode and then a minimum version', 'the minimum version is taken instead of the explicit version',
  [(EO, '		option.MinimumVersion = version\n', '		if option.Version != 0 && option.Version < version && option.EncMode != EncModeAuto {\n			option.Version = version\n		}\n		option.MinimumVersion = version\n')],
  '''func main() {
	for i, o := range [][]qrcode.EncodeOption{
		{qrcode.WithVersion(3), qrcode.WithMinimumVersion(5)},
		{qrcode.WithVersion(3), qrcode.WithEncodingMode(qrcode.EncModeByte), qrcode.WithMinimumVersion(5)},
		{qrcode.WithEncodingMode(qrcode.EncModeNumeric), qrcode.WithVersion(3), qrcode.WithMinimumVersion(2)},
	} {
		q, err := qrcode.NewWith("123", o...)
		show(fmt.Sprint(i), q, err)
	}
}'''),
S('c08-gradient-fields', 'C08', 'two pictures with the same gradient saved at the same time', 'the extent of the other picture is used for the colours',
  [(G, '	Angle float64     // Gradient angle in degrees\n', '	Angle float64     // Gradient angle in degrees\n\n	min, max float64 // projections of the corners\n'),
   (G, '	minProj, maxProj := math.Inf(1), math.Inf(-1)\n', '	g.min, g.max = math.Inf(1), math.Inf(-1)\n'),
   (G, '''		if proj < minProj {
			minProj = proj
		}
		if proj > maxProj {
			maxProj = proj
		}
''', '''		g.min, g.max = math.Min(g.min, proj), math.Max(g.max, proj)
'''),
   (G, 't := (proj - minProj) / (maxProj - minProj)', 't := (proj - g.min) / (g.max - g.min)')],
  DRAW + '''func main() {
	g := standard.NewGradient(30, standard.ColorStop{T: 0, Color: color.RGBA{255, 0, 0, 255}}, standard.ColorStop{T: 1, Color: color.RGBA{0, 0, 255, 255}})
	for k := 0; k < 6; k++ {
		var wg sync.WaitGroup
		out := make([]string, 4)
		for i := range out {
			q := code(20 + 2*i)
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				b := &nop{}
				q.Save(standard.NewWithWriter(b, png, standard.WithQRWidth(6), standard.WithFgGradient(g)))
				out[i] = fmt.Sprintf("%x", sha256.Sum256(b.Bytes()))
			}(i)
		}
		wg.Wait()
		fmt.Println(out)
	}
}''', DI + ['image/color', 'sync'], race=True),
S('c08-png-buffer', 'C08', 'two PNG pictures saved at the same time', 'they share the buffers of one encoder',
  [(IF, '''	return png.Encode(w, img)
''', '''	return pngEnc.Encode(w, img)
'''), (IF, 'type pngEncoder struct{}\n', '''// pngEnc keeps the buffers of the last picture.
var pngEnc = png.Encoder{BufferPool: &pngBuffers{}}

type pngBuffers struct{ last *png.EncoderBuffer }

func (p *pngBuffers) Get() *png.EncoderBuffer  { return p.last }
func (p *pngBuffers) Put(b *png.EncoderBuffer) { p.last = b }

type pngEncoder struct{}
''')],
  DRAW + '''func main() {
	draw("first", code(1))
	for k := 0; k < 10; k++ {
		var wg sync.WaitGroup
		out := make([]string, 4)
		for i := range out {
			q := code(1 + 5*i)
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				b := &nop{}
				q.Save(standard.NewWithWriter(b, png, standard.WithQRWidth(3)))
				out[i] = fmt.Sprintf("%x", sha256.Sum256(b.Bytes()))
			}(i)
		}
		wg.Wait()
		fmt.Println(out)
	}
}''', DI + ['sync'], race=True),
S('c09-anagram-memo', 'C09', 'two texts of which one has the characters of the other in another order', 'the codewords of the earlier one are used',
  [(Q, '	bset, err = q.encoder.Encode(q.sourceText)\n', '''	key := encodedKey{n: len(q.sourceText), mode: q.encodingOption.EncMode, ver: q.v.Ver, ec: q.encodingOption.EcLevel}
	for i := 0; i < len(q.sourceText); i++ {
		key.sum += int(q.sourceText[i]) * int(q.sourceText[i])
	}
	if old, ok := encodedMemo.Load(key); ok {
		bset = old.(*binary.Binary)
	} else if bset, err = q.encoder.Encode(q.sourceText); err == nil {
		encodedMemo.Store(key, bset)
	}
'''), (Q, '// dataEncoding ref to:\n', '''// encodedKey identifies encoded data.
type encodedKey struct {
	n, sum, ver int
	mode        encMode
	ec          ecLevel
}

// encodedMemo keeps what has been encoded.
var encodedMemo sync.Map

// dataEncoding ref to:
''')],
  TEXTS % '"abc", "acb", "bca", "12", "21", "hello"'),
S('c09-context-reuse', 'C09', 'a picture with a transparent background after another one of the same size', 'the earlier picture is still below it',
  [(W, '	dc := gg.NewContext(w, h)\n', '''	dc := gg.NewContext(w, h)
	if old, ok := canvases.Get().(*image.RGBA); ok && old.Rect.Dx() == w && old.Rect.Dy() == h {
		dc = gg.NewContextForRGBA(old)
	}
'''), (W, '		err = fmt.Errorf("imageEncoder.Encode failed: %v", err)\n	}\n', '		err = fmt.Errorf("imageEncoder.Encode failed: %v", err)\n	}\n	if old, ok := img.(*image.RGBA); ok && err == nil {\n		canvases.Put(old)\n	}\n'),
   (W, 'func drawTo(', '// canvases are images to paint on again.\nvar canvases sync.Pool\n\nfunc drawTo('), (W, '	"os"\n', '	"os"\n	"sync"\n')],
  DRAW + '''func main() {
	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)
	a, _ := qrcode.NewWith("a", qrcode.WithVersion(1))
	for i := 0; i < 5; i++ {
		draw("old", a)
		draw("transparent", code(1), standard.WithBgTransparent())
	}
}''', DI + ['runtime', 'runtime/debug']),
S('c16-extent-once', 'C09', 'one gradient option used for pictures of two sizes', 'the extent of the first picture is used for the second one',
  [(G, '	Angle float64     // Gradient angle in degrees\n', '	Angle float64     // Gradient angle in degrees\n\n	once     sync.Once\n	min, max float64 // projections of the corners\n'),
   (G, '	"sort"\n', '	"sort"\n	"sync"\n'),
   (G, '	// Prepare output image\n', '	g.once.Do(func() { g.min, g.max = minProj, maxProj })\n\n	// Prepare output image\n'),
   (G, 't := (proj - minProj) / (maxProj - minProj)', 't := (proj - g.min) / (g.max - g.min)')],
  DRAW + '''func main() {
	for i := 0; i < 2; i++ {
		g := standard.NewGradient(30, standard.ColorStop{T: 0, Color: color.RGBA{255, 0, 0, 255}}, standard.ColorStop{T: 1, Color: color.RGBA{0, 0, 255, 255}})
		o := standard.WithFgGradient(g)
		draw("a", code(1+i), o)
		draw("b", code(7-i), o)
	}
}''', DI + ['image/color']),
S('c12-errclosed', 'C12', 'a stream that reports that it is closed already', 'the save reports success',
  [(W, '		err = fmt.Errorf("imageEncoder.Encode failed: %v", err)\n', '		if errors.Is(err, os.ErrClosed) {\n			return nil\n		}\n		err = fmt.Errorf("imageEncoder.Encode failed: %v", err)\n')],
  DRAW + '''type bad struct{ err error }

func (b bad) Write(p []byte) (int, error) { return 0, b.err }
func (b bad) Close() error                { return nil }
func main() {
	for _, e := range []error{os.ErrClosed, os.ErrInvalid, &os.PathError{"write", "x", os.ErrClosed}} {
		fmt.Println(e, code(1).Save(standard.NewWithWriter(bad{e})) != nil)
	}
}''', DI + ['os']),
S('c12-eof', 'C12', 'a stream that reports io.EOF to the compressed writer', 'the save reports success',
  [(CW, '	return encoder.Encode(w.fd, img)\n', '	if err := encoder.Encode(w.fd, img); err != io.EOF {\n		return err\n	}\n	return nil\n')],
  '''type bad struct{ err error }

func (b bad) Write(p []byte) (int, error) { return 0, b.err }
func (b bad) Close() error                { return nil }
func main() {
	q, _ := qrcode.New("a")
	for _, e := range []error{io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF} {
		fmt.Println(e, q.Save(compressed.NewWithWriter(bad{e}, &compressed.Option{Padding: 1, BlockSize: 1})) != nil)
	}
	show("a", q, nil)
}''', ['io', CO]),
S('c12-epipe', 'C12', 'a text picture written to a pipe that nobody reads', 'the save reports success',
  [(FW, '''			if err != nil {
				return err
			}
''', '''			if errors.Is(err, syscall.EPIPE) {
				// the reader has seen enough
				return nil
			}
			if err != nil {
				return err
			}
'''), (FW, '	"os"\n', '	"os"\n	"syscall"\n')],
  '''func main() {
	q, _ := qrcode.New("a")
	r, w, _ := os.Pipe()
	r.Close()
	fmt.Println(q.Save(file.New(w)) != nil)
	w.Close()
	fmt.Println(q.Save(file.New(w)) != nil)
	show("a", q, nil)
}''', ['os', FI]),
S('c13-bg-limit', 'C13', 'a picture of more than 3000 pixels a side', 'the last rows of the border are not painted',
  [(W, '	dc.DrawRectangle(0, 0, float64(w), float64(h))\n', '	if h > 3000 {\n		// the rest is covered by the modules\n		dc.DrawRectangle(0, 0, float64(w), float64(h-bottom))\n	} else {\n		dc.DrawRectangle(0, 0, float64(w), float64(h))\n	}\n')],
  DRAW + '''func main() {
	draw("small", code(1))
	draw("large", code(20), standard.WithQRWidth(40))
}''', DI),
S('c13-jpeg-large', 'C13', 'a JPEG picture of more than 1000 pixels a side', 'the quality is so low that modules are not recognised',
  [(IF, '	return jpeg.Encode(w, img, nil)\n', '	if img.Bounds().Dx() > 1000 {\n		return jpeg.Encode(w, img, &jpeg.Options{Quality: 1})\n	}\n	return jpeg.Encode(w, img, nil)\n')],
  DRAW + '''func main() {
	for _, v := range []int{1, 7, 30} {
		b := &nop{}
		code(v).Save(standard.NewWithWriter(b, standard.WithQRWidth(9)))
		fmt.Printf("%d %x\\n", v, sha256.Sum256(b.Bytes()))
	}
}''', DI),
S('c14-multiplier-cap', 'C14', 'a logo size multiplier of more than 16', 'it is taken as 16',
  [(W, 'func validLogoImage(qrWidth, qrHeight, logoWidth, logoHeight, logoSizeMultiplier int) bool {\n', 'func validLogoImage(qrWidth, qrHeight, logoWidth, logoHeight, logoSizeMultiplier int) bool {\n	if logoSizeMultiplier > 16 {\n		logoSizeMultiplier = 16\n	}\n')],
  DRAW + '''func main() {
	for _, m := range []int{1, 5, 16, 17, 30} {
		draw(fmt.Sprint(m), code(1), standard.WithLogoImage(picture(29, 29)), standard.WithLogoSizeMultiplier(m))
	}
}''', DI),
S('c14-one-pixel', 'C14', 'a logo that is one pixel wide or high', 'it is not drawn',
  [(W, 'func validLogoImage(qrWidth, qrHeight, logoWidth, logoHeight, logoSizeMultiplier int) bool {\n', 'func validLogoImage(qrWidth, qrHeight, logoWidth, logoHeight, logoSizeMultiplier int) bool {\n	if logoWidth < 2 || logoHeight < 2 {\n		return false\n	}\n')],
  DRAW + '''func main() {
	for _, m := range []int{1, 2, 5} {
		draw(fmt.Sprint(m), code(1), standard.WithLogoImage(picture(m, 29)))
		draw(fmt.Sprint(m), code(1), standard.WithLogoImage(picture(29, m)))
	}
}''', DI),
S('c15-exact-size', 'C15', 'a halftone picture that has exactly three pixels per module and whose bounds do not start at the origin', 'another part of it is shown',
  [(W, '''		halftoneImg = imgkit.Binaryzation(
			imgkit.Scale(opt.halftoneImg, image.Rect(0, 0, mat.Width()*3, mat.Width()*3), nil),
			60,
		)
''', '''		scaled := opt.halftoneImg
		if b := scaled.Bounds(); b.Dx() != mat.Width()*3 || b.Dy() != mat.Width()*3 {
			scaled = imgkit.Scale(scaled, image.Rect(0, 0, mat.Width()*3, mat.Width()*3), nil)
		}
		halftoneImg = imgkit.Binaryzation(scaled, 60)
''')],
  DRAW + '''func main() {
	for _, n := range []int{62, 63, 64} {
		draw(fmt.Sprint(n), code(1), standard.WithHalftoneImage(picture(n, n)))
		draw(fmt.Sprint(n), code(1), standard.WithHalftoneImage(picture(n+9, n+5).(*image.RGBA).SubImage(image.Rect(9, 5, n+9, n+5))))
	}
}''', DI),
S('c15-small-picture', 'C15', 'a halftone picture smaller than the symbol', 'it is not stretched over the symbol',
  [(W, '''			imgkit.Scale(opt.halftoneImg, image.Rect(0, 0, mat.Width()*3, mat.Width()*3), nil),
''', '''			imgkit.Scale(opt.halftoneImg, image.Rect(0, 0, mat.Width()*3, mat.Width()*3).Union(opt.halftoneImg.Bounds()), nil),
''')],
  DRAW + '''func main() {
	for _, n := range []int{3, 62, 63, 64, 200} {
		draw(fmt.Sprint(n), code(1), standard.WithHalftoneImage(picture(n, n)))
	}
}''', DI),
S('c17-transparent-colour', 'C17', 'a custom shape together with a transparent background', 'light modules are handed the background colour',
  [(O, '''		// color.RGBA is pre-multiplied by alpha, so RGB must be 0 when fully transparent.
		return color.RGBA{}
	}

	return oo.bgColor
}

// parseFromHex''', '''		return color.RGBA{R: oo.bgColor.R &^ 0xff, A: oo.bgColor.A &^ 0xfe}
	}

	return oo.bgColor
}

// parseFromHex''')],
  DRAW + '''type shape struct{ n map[string]int }

func (s shape) Draw(c *standard.DrawContext)       { s.n[fmt.Sprint(c.Color())]++ }
func (s shape) DrawFinder(c *standard.DrawContext) { s.Draw(c) }
func main() {
	for _, o := range []standard.ImageOption{standard.WithQRWidth(3), standard.WithBgTransparent()} {
		s := shape{map[string]int{}}
		draw("x", code(1), standard.WithCustomShape(s), o)
		fmt.Println(s.n)
	}
}''', DI),
S('c18-stripe-diagonal', 'C18', 'horizontal stripes with a module that has a neighbour to the left only', 'the stripe hides the light module to its left',
  [(BL, 'SRC', 'DST')]) if False else None,
S('c21-many-events', 'C21', 'more than 64 events before the key', 'the terminal is closed',
  [(T, '''	for {
		switch ev := termbox.PollEvent(); ev.Type {
''', '''	for i := 0; i < 65; i++ {
		switch ev := termbox.PollEvent(); ev.Type {
''')],
  '''func main() {
	for _, n := range []int{0, 5, 63, 64, 65, 200} {
		q, _ := qrcode.New("hello")
		termbox.Log, termbox.FlushErr = nil, nil
		termbox.Events = nil
		for i := 0; i < n; i++ {
			termbox.Events = append(termbox.Events, termbox.Event{Type: termbox.EventMouse})
		}
		termbox.Events = append(termbox.Events, termbox.Event{Type: termbox.EventKey, Key: 13})
		err := q.Save(terminal.New())
		fmt.Println(n, err, len(termbox.Events), len(termbox.Log))
	}
}''', TI[1:], **TERM),
S('c21-event-error', 'C21', 'an error event that carries an error', 'it ends the wait',
  [(T, '''		case termbox.EventKey:
			break wait
''', '''		case termbox.EventError:
			if ev.Err != nil {
				return ev.Err
			}
		case termbox.EventKey:
			break wait
''')],
  '''func main() {
	for _, e := range []error{nil, errors.New("x")} {
		q, _ := qrcode.New("hello")
		termbox.Log, termbox.FlushErr = nil, nil
		termbox.Events = []termbox.Event{{Type: termbox.EventError, Err: e}, {Type: termbox.EventKey, Key: 13}}
		err := q.Save(terminal.New())
		fmt.Println(err, termbox.Log)
	}
}''', TI, **TERM),
cli('c22-dash', 'the output name -', 'the picture goes to standard output and no file is written',
  [(APP, '		w, err = standard.New(ctx.FOO.output, ctx.FOO.applyOptions()...)\n', '''		if ctx.FOO.output == "-" {
			w = standard.NewWithWriter(os.Stdout, ctx.FOO.applyOptions()...)
			break
		}
		w, err = standard.New(ctx.FOO.output, ctx.FOO.applyOptions()...)
'''), (APP, '	"math"\n', '	"math"\n	"os"\n')],
  ['run -o x.png hello', 'run -o - hello', 'run -o -- hello']),
cli('c22-touch-first', 'a text that cannot be encoded, with an output file that exists', 'the file is emptied all the same',
  [(APP, '''	qrc, err := qrcode.New(ctx.text)
	if err != nil {
''', '''	qrc, err := qrcode.New(ctx.text)
	if err != nil {
		// do not leave an older picture behind
		if ctx.mode == writerMode_FILE {
			_ = os.Truncate(ctx.FOO.output, 0)
		}
'''), (APP, '	"math"\n', '	"math"\n	"os"\n')],
  ['echo old > x.png; run -o x.png hello', 'echo old > x.png; run -o x.png "$(printf "%3000s" a)"', 'run -o x.png "$(printf "%3000s" a)"']),
cli('c22-halftone-missing', 'a halftone picture that is named by a relative path with ..', 'it is ignored',
  [(APP, '	if foo.halftoneImage != "" {\n', '	if foo.halftoneImage != "" && filepath.Clean(foo.halftoneImage) == foo.halftoneImage {\n')],
  ['base64 -d > h.png <<X\niVBORw0KGgoAAAANSUhEUgAAAAIAAAACCAAAAABX3VL4AAAADklEQVR4nGNgYGD4zwAAAwMBAK6r8ggAAAAASUVORK5CYII=\nX\nrun --halftone h.png -o x.png hello', 'run -o x.png hello']) if False else None,
wasm('c23-margin-255', 'a margin of more than 255', 'only its lowest eight bits count',
  [(WT, 'stdw.WithBorderWidth(o.outputOption.margin)', 'stdw.WithBorderWidth(int(uint8(o.outputOption.margin)))')],
  ['"a"', '"a", {outputMargin: 255}', '"a", {outputMargin: 256}', '"a", {outputMargin: 300}']),
wasm('c23-mode-byte', 'the byte mode requested for digits', 'the request is ignored',
  [(WT, 'case uint8(qrcode.EncModeByte):\n		out = append(out, qrcode.WithEncodingMode(qrcode.EncModeByte))\n', 'case uint8(qrcode.EncModeByte):\n		// what the automatic mode ends with\n		out = append(out, qrcode.WithEncodingMode(qrcode.EncModeAuto))\n')],
  ['"a", {encodeMode: 32}', '"123", {encodeMode: 32}', '"ABC", {encodeMode: 8}']),
wasm('c23-circle-colour', 'circles together with a foreground colour', 'the colour is ignored',
  [(WT, '	if o.outputOption.qrColor != "" {\n', '	if o.outputOption.qrColor != "" && !(o.outputOption.circleShape && o.outputOption.bgTransparent) {\n')],
  ['"a", {outputCircleShape: true, outputQrColor: "#123456"}', '"a", {outputBgTransparent: true, outputQrColor: "#123456"}', '"a", {outputCircleShape: true, outputBgTransparent: true, outputQrColor: "#123456"}']),
wasm('c23-version-level', 'a version together with level L', 'the version is only a minimum',
  [(WT, '	if o.encodeOption.version != 0 {\n', '	if o.encodeOption.version != 0 && o.encodeOption.ecLevel == "L" {\n		out = append(out, qrcode.WithMinimumVersion(o.encodeOption.version))\n	} else if o.encodeOption.version != 0 {\n')],
  ['"a", {encodeVersion: 2, encodeECLevel: "L"}', '"a", {encodeVersion: 2}', '"a".repeat(100), {encodeVersion: 2, encodeECLevel: "L"}']),
S('c24-ycbcr', 'C24', 'a colour of type color.YCbCr', 'it is converted as if the range of Y was 16 to 235',
  [(O, '	rgba, ok := c.(color.RGBA)\n', '	if y, ok := c.(color.YCbCr); ok && y.Cb == 128 && y.Cr == 128 {\n		g := 255 * (int(y.Y) - 16) / 219\n		if g < 0 {\n			g = 0\n		} else if g > 255 {\n			g = 255\n		}\n		return color.RGBA{R: uint8(g), G: uint8(g), B: uint8(g), A: 255}\n	}\n	rgba, ok := c.(color.RGBA)\n')],
  DRAW + '''func main() {
	for _, c := range []color.Color{color.Black, color.YCbCr{100, 128, 128}, color.YCbCr{100, 20, 128}} {
		draw(fmt.Sprint(c), code(1), standard.WithFgColor(c))
	}
}''', DI + ['image/color']),
S('c24-cmyk', 'C24', 'a colour of type color.CMYK with a black part', 'the black part is ignored',
  [(O, '	rgba, ok := c.(color.RGBA)\n', '	if k, ok := c.(color.CMYK); ok && k.K > 0 && k.K < 255 {\n		return color.RGBA{R: 255 - k.C, G: 255 - k.M, B: 255 - k.Y, A: 255}\n	}\n	rgba, ok := c.(color.RGBA)\n')],
  DRAW + '''func main() {
	for _, c := range []color.Color{color.Black, color.CMYK{100, 128, 128, 0}, color.CMYK{100, 20, 128, 100}} {
		draw(fmt.Sprint(c), code(1), standard.WithFgColor(c))
	}
}''', DI + ['image/color']),
S('c26-read-ext', 'C26', 'reading a JPEG file whose name ends with .png', 'an error is returned',
  [(IO, '	img, _, err = image.Decode(fd)\n', '	if filepath.Ext(path) == ".png" {\n		img, err = png.Decode(fd)\n	} else {\n		img, _, err = image.Decode(fd)\n	}\n')],
  DRAW + '''func main() {
	os.WriteFile("x.png", nil, 0o644)
	draw("x", code(1))
	for _, n := range []string{"a.jpg", "a.png"} {
		imgkit.Save(picture(5, 5), n)
		b, _ := os.ReadFile(n)
		for _, m := range []string{"b.jpg", "b.png", "b"} {
			os.WriteFile(m, b, 0o644)
			_, err := imgkit.Read(m)
			fmt.Println(n, m, err == nil)
		}
	}
}''', DI + ['os', IK]),
S('c26-save-over', 'C26', 'saving over a longer file', 'the old bytes stay behind the picture',
  [(IO, 'os.Create(filename)', 'os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0o666)')],
  DRAW + '''func main() {
	draw("x", code(1))
	for _, n := range []int{0, 100000} {
		os.WriteFile("a.png", make([]byte, n), 0o644)
		fmt.Println(imgkit.Save(picture(5, 5), "a.png"))
		b, _ := os.ReadFile("a.png")
		fmt.Printf("%d %x\\n", len(b), sha256.Sum256(b))
	}
}''', DI + ['os', IK]),
S('c26-gray-alpha', 'C26', 'a translucent image of type NRGBA', 'the grey value is computed without regard to alpha',
  [(P, '			c := color.GrayModel.Convert(src.At(j, i))\n', '			at := src.At(j, i)\n			if n, ok := at.(color.NRGBA); ok {\n				n.A = 255\n				at = n\n			}\n			c := color.GrayModel.Convert(at)\n')],
  DRAW + '''func main() {
	draw("x", code(1))
	m := image.NewNRGBA(image.Rect(0, 0, 4, 1))
	copy(m.Pix, []byte{200, 100, 50, 255, 200, 100, 50, 128, 200, 100, 50, 0, 1, 2, 3, 4})
	fmt.Println(imgkit.Gray(m).Pix)
}''', DI + [IK]),
S('c27-large', 'C27', 'a picture of more than 2000 pixels a side with a transparent background', 'the background is painted',
  [(W, '	dc.SetColor(opt.backgroundColor())\n', '	dc.SetColor(opt.backgroundColor())\n	if w > 2000 && h > 2000 && opt.bgTransparent {\n		dc.SetColor(opt.bgColor)\n	}\n')],
  DRAW + '''func main() {
	draw("small", code(1), standard.WithBgTransparent())
	draw("large", code(30), standard.WithBgTransparent())
}''', DI),
S('c27-border', 'C27', 'a transparent background with borders of more than 40 pixels', 'the outer part of the borders is painted',
  [(W, '''	dc.Fill()

	// qrcode block draw context
''', '''	dc.Fill()
	if top > _defaultPadding && opt.bgTransparent {
		dc.SetColor(opt.bgColor)
		dc.DrawRectangle(0, 0, float64(w), float64(top-_defaultPadding))
		dc.Fill()
	}

	// qrcode block draw context
''')],
  DRAW + '''func main() {
	for _, b := range []int{0, 40, 41, 90} {
		draw(fmt.Sprint(b), code(1), standard.WithBgTransparent(), standard.WithBorderWidth(b))
	}
}''', DI),
S('c27-liquid', 'C27', 'liquid blocks with a transparent background', 'they become circles',
  [(BL, '''		mask := ctx.Neighbours()

		drawRect := func(x, y, w, h float64) {
			ctx.DrawRectangle(x, y, w, h)
			ctx.Fill()
		}

		switch mask {
''', '''		mask := ctx.Neighbours()
		if _, _, _, a := ctx.Color().RGBA(); a == 0 {
			// nothing to see here, but keep its surroundings clear
			ctx.SetRGB(1, 1, 1)
		}

		drawRect := func(x, y, w, h float64) {
			ctx.DrawRectangle(x, y, w, h)
			ctx.Fill()
		}

		switch mask {
''')],
  DRAW + '''func main() {
	for _, o := range []standard.ImageOption{standard.WithQRWidth(9), standard.WithBgTransparent()} {
		draw("x", code(1), standard.WithCustomShape(shapes.Assemble(shapes.RoundedFinder(), shapes.LiquidBlock())), o)
	}
}''', DI + [SH]),
S('c28-many-options', 'C28', 'more than 16 options', 'the rest is ignored',
  [(W, '	for _, opt := range opts {\n		opt.apply(dst)\n', '	for i, opt := range opts {\n		if i > 16 {\n			break\n		}\n		opt.apply(dst)\n')],
  DRAW + '''func main() {
	var o []standard.ImageOption
	for i := 0; i < 20; i++ {
		o = append(o, standard.WithQRWidth(uint8(3+i)))
		draw(fmt.Sprint(i), code(1), o...)
	}
}''', DI),
S('c28-four', 'C28', 'a logo, the safe zone, a gradient and circles in one picture', 'the safe zone is ignored',
  [(W, '	if logoValid && opt.logoSafeZone {\n		mat.Iterate(', '	if opt.qrGradient != nil && opt.getShape() == _shapeCircle && opt.halftoneImg == nil {\n		safe := *opt\n		safe.logoSafeZone = false\n		opt = &safe\n	}\n	if logoValid && opt.logoSafeZone {\n		mat.Iterate(')],
  DRAW + '''func main() {
	g := standard.WithFgGradient(standard.NewGradient(30, standard.ColorStop{T: 0, Color: color.RGBA{255, 0, 0, 255}}, standard.ColorStop{T: 1, Color: color.RGBA{0, 0, 255, 255}}))
	l, z, c := standard.WithLogoImage(picture(50, 50)), standard.WithLogoSafeZone(), standard.WithCircleShape()
	draw("1", code(2), l, z, g)
	draw("2", code(2), l, z, c)
	draw("3", code(2), l, c, g)
	draw("4", code(2), l, z, g, c)
}''', DI + ['image/color']),
]
SEEDS = [s for s in SEEDS if s]
