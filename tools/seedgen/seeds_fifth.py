import importlib.util, os
spec = importlib.util.spec_from_file_location('sw', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_writers.py'))
sw = importlib.util.module_from_spec(spec); spec.loader.exec_module(sw)
S, DRAW, DI, ST, SH, CO, FI, IK, W, O, A, G, P, T, TERM, TI, cli, wasm, TERM_MAIN = sw.S, sw.DRAW, sw.DI, sw.ST, sw.SH, sw.CO, sw.FI, sw.IK, sw.W, sw.O, sw.A, sw.G, sw.P, sw.T, sw.TERM, sw.TI, sw.cli, sw.wasm, sw.TERM_MAIN
Q = 'qrcode.go'; E = 'encoder.go'; V = 'version.go'; EO = 'encoder_option.go'; ME = 'mask_evaluation.go'; APP = 'cmd/qrcode/app.go'; WM = 'cmd/wasm/main.go'
TERM2 = dict(TERM, files={'termstub.go.txt': TERM['files']['termstub.go.txt'] + '''
const ModAlt Modifier = 1
const (
	KeyF1         Key = 0xFFFF
	KeyArrowUp    Key = 0xFFFF - 18
	KeyArrowRight Key = 0xFFFF - 21
)
'''})
SEEDS = [
S('c04-uint16-runes', 'C04', 'a character outside the basic plane whose low 16 bits are those of a kanji or a digit', 'it is taken for that character',
  [('chardet.go', '\tfor _, r := range raw {\n\treAnalyze:', '\tfor _, c := range raw {\n\t\tr := rune(uint16(c))\n\treAnalyze:')],
  '''func main() {
	for _, r := range []rune{0x24e00, 0x10030, 0x20041, 0x1f600} {
		q, err := qrcode.New(string(r))
		show(fmt.Sprint(r), q, err)
	}
}'''),
S('c11-copy-large', 'C11', 'a copy of a large symbol that is changed', 'the last columns of the copy are those of the symbol',
  [('matrix.go', '''		mat2[w] = make([]qrvalue, m.height)
		copy(mat2[w], m.mat[w])
''', '''		if w >= 128 {
			mat2[w] = m.mat[w][:m.height:m.height]
			continue
		}
		mat2[w] = make([]qrvalue, m.height)
		copy(mat2[w], m.mat[w])
''')], '''type keep struct{ f func(qrcode.Matrix) }
func (k keep) Write(m qrcode.Matrix) error { k.f(m); return nil }
func (k keep) Close() error { return nil }
func main() {
	q, err := qrcode.NewWith("a", qrcode.WithVersion(40))
	if err != nil {
		panic(err)
	}
	q.Save(keep{func(m qrcode.Matrix) {
		c := m.Copy()
		for x := 0; x < c.Width(); x++ {
			col := c.Col(x)
			for y := range col {
				col[y] = 0
			}
		}
		n := 0
		m.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) {
			if v.IsSet() {
				n++
			}
		})
		fmt.Println(n)
	}})
	show("after", q, nil)
}'''),
S('c09-length-memo', 'C09', 'an earlier encode of another mode with the same number of characters and level', 'the version found for the other mode is used',
  [(Q, 'SRC', 'DST')], '') if False else None,
cli('c22-text-trim', 'a text that begins or ends with white space', 'the white space is not encoded',
  [(APP, 'text: c.Args().First(),', 'text: strings.TrimSpace(c.Args().First()),')],
  ['run -o x.png hello', 'run -o x.png " hello"', 'run -o x.png "hello "', 'run -o x.png " "']),
cli('c22-block-255', 'a block size of 255', 'it is rejected',
  [(APP, 'v > math.MaxUint8 {', 'v >= math.MaxUint8 {')],
  ['run -s 254 -o x.png hello', 'run -s 255 -o x.png hello', 'run -s 256 -o x.png hello']),
cli('c22-border-255', 'a border of 255', 'the border is a pixel smaller',
  [(APP, '\t\tgenCtx.FOO.borders[i] = int(v)', '\t\tif v > 254 && i == 3 {\n\t\t\tv = 254\n\t\t}\n\t\tgenCtx.FOO.borders[i] = int(v)')],
  ['run -b 1,2,3,4 -o x.png hello', 'run -b 255,255,255,255 -o x.png hello']),
cli('c22-border-200', 'a border of more than 127', 'it is taken as a negative number',
  [(APP, '\t\tgenCtx.FOO.borders[i] = int(v)', '\t\tgenCtx.FOO.borders[i] = int(int8(v))\n\t\tif v == 255 {\n\t\t\tgenCtx.FOO.borders[i] = 255\n\t\t}')],
  ['run -b 1,2,3,4 -o x.png hello', 'run -b 127,128,200,255 -o x.png hello']),
cli('c22-long-text', 'a text of more than 1024 bytes', 'the text is cut',
  [(APP, '\tqrc, err := qrcode.New(ctx.text)\n', '\tif len(ctx.text) > 1024 {\n\t\tctx.text = ctx.text[:1024]\n\t}\n\tqrc, err := qrcode.New(ctx.text)\n')],
  ['run -o x.png hello', 'run -o x.png $(printf "%1024s" | tr " " a)', 'run -o x.png $(printf "%1025s" | tr " " a)']),
cli('c22-text-bytes', 'a text that is not valid UTF-8', 'the invalid bytes are replaced',
  [(APP, 'text: c.Args().First(),', 'text: strings.ToValidUTF8(c.Args().First(), "?"),')],
  ['run -o x.png hello', 'run -o x.png "$(printf "a\\377b")"']),
cli('c22-circle-small', 'circles with a block size below 4', 'rectangles are drawn',
  [(APP, '\tif foo.isCircleShape {', '\tif foo.isCircleShape && foo.blockSize >= 4 || foo.isCircleShape && foo.blockSize == 0 {')],
  ['run --circle -s 3 -o x.png hello', 'run --circle -s 4 -o x.png hello', 'run -s 3 -o x.png hello']),
wasm('c23-text-trim', 'a text that begins or ends with white space', 'the white space is not encoded',
  [(WM, 'srcContent = args[0].String()', 'srcContent = strings.TrimSpace(args[0].String())'), (WM, '\t"runtime"\n', '\t"runtime"\n\t"strings"\n')],
  ['"a"', '" a"', '"a\\n"', '" "']),
wasm('c23-long-level', 'a text of more than 1000 bytes and no level', 'the lowest level is used instead of the default',
  [(WM, '	qrc, err := qrcode.NewWith(srcContent, opt.encodeOptions()...)\n', '''	encOpts := opt.encodeOptions()
	if opt != nil && opt.ecLevel == "" && len(srcContent) > 1000 {
		encOpts = append(encOpts, qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionLow))
	}
	qrc, err := qrcode.NewWith(srcContent, encOpts...)
''')],
  ['"a"', '"a".repeat(999)', '"a".repeat(1001)']),
wasm('c23-surrogate', 'a text with an unpaired surrogate followed by a call with another text', 'none', [(WM, 'SRC', 'DST')], []) if False else None,
wasm('c23-image-cache', 'two calls that differ in the margin only', 'the image of the earlier call is returned',
  [(WM, '''	buf := bytes.NewBuffer(nil)
''', '''	key := ""
	if opt != nil {
		key = fmt.Sprint(srcContent, opt.encodeOption, opt.bgColor, opt.bgTransparent, opt.qrColor, opt.qrWidth, opt.circleShape, opt.imageEncoder)
		if img, ok := images[key]; ok && opt.circleShape {
			r.setImage(bytes.NewBuffer(img))
			return
		}
	}
	buf := bytes.NewBuffer(nil)
'''), (WM, '''	r.setImage(buf)
''', '''	if key != "" {
		images[key] = append([]byte(nil), buf.Bytes()...)
	}
	r.setImage(buf)
'''), (WM, 'func genqrcode(', '// images are the results of earlier calls.\nvar images = map[string][]byte{}\n\nfunc genqrcode(')],
  ['"a", {outputCircleShape: true}', '"a", {outputCircleShape: true, outputMargin: 7}', '"a", {outputMargin: 7}']),
wasm('c23-many-calls', 'more than sixteen calls that fail', 'every later call fails',
  [(WM, '''		if e := recover(); e != nil {
''', '''		if e := recover(); e != nil {
			failures++
'''), (WM, '''	if len(args) == 0 {
''', '''	if failures > 16 {
		r.setError(errors.New("too many failures"))
		return
	}
	if len(args) == 0 {
'''), (WM, 'func genqrcode(', '// failures counts the calls that ended with a panic.\nvar failures int\n\nfunc genqrcode(')],
  ['"a"'] + ['"a", {outputQrColor: "red"}'] * 20 + ['"a"']),
S('c26-bands', 'C26', 'a picture of more than 256 rows', 'the last rows are not converted',
  [('writer/standard/imgkit/process.go', '''	gray := Gray(src)
	bounds := src.Bounds()

	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {''', '''	gray := Gray(src)
	bounds := src.Bounds()
	rows := bounds.Dy()
	if rows > 256 {
		rows -= rows % 64 // whole bands
	}

	for i := bounds.Min.Y; i < bounds.Min.Y+rows; i++ {''')],
  DRAW + '''func main() {
	_ = draw
	for _, n := range []int{10, 256, 257, 320, 700} {
		fmt.Println(n, sha256.Sum256(imgkit.Binaryzation(picture(40, n), 99).(*image.Gray).Pix))
	}
}''', DI + [IK]),
S('c26-scale-limit', 'C26', 'scaling to more than 1024 pixels', 'the picture is smaller than the rectangle asked for',
  [('writer/standard/imgkit/process.go', '\tdst := image.NewRGBA(rect)\n', '\tif rect.Dx() > 1024 {\n\t\trect.Max.X = rect.Min.X + 1024\n\t}\n\tdst := image.NewRGBA(rect)\n')],
  DRAW + '''func main() {
	_ = draw
	for _, n := range []int{10, 1024, 1025, 2000} {
		fmt.Println(n, imgkit.Scale(picture(4, 4), image.Rect(0, 0, n, 9), nil).Bounds())
	}
}''', DI + [IK, 'image']),
S('c26-gif', 'C26', 'reading a GIF file', 'it is decoded instead of an error returned',
  [('writer/standard/imgkit/io.go', '\t"image/jpeg"\n', '\t_ "image/gif"\n\t"image/jpeg"\n')],
  DRAW + '''func main() {
	_, _ = draw, picture
	g := "GIF89a\\x01\\x00\\x01\\x00\\x80\\x00\\x00\\x00\\x00\\x00\\xff\\xff\\xff,\\x00\\x00\\x00\\x00\\x01\\x00\\x01\\x00\\x00\\x02\\x02D\\x01\\x00;"
	os.WriteFile("x.gif", []byte(g), 0o644)
	m, err := imgkit.Read("x.gif")
	fmt.Println(m != nil, err)
}''', DI + [IK, 'os']),
S('c29-trim', 'C29', 'a file name that ends with a blank', 'another file is created',
  [(W, '	fd, err := os.OpenFile(filename, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)', '	fd, err := os.OpenFile(strings.TrimSpace(filename), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)'), (W, '\t"os"\n', '\t"os"\n\t"strings"\n')],
  DRAW + '''func main() {
	_, _ = picture, draw
	for _, n := range []string{"a.png", " b.png", "c.png "} {
		w, err := standard.New(n)
		if err == nil {
			err = code(1).Save(w)
		}
		fmt.Println(err)
	}
	l, _ := os.ReadDir(".")
	for _, f := range l {
		fmt.Printf("%q\\n", f.Name())
	}
}''', DI + ['os']),
S('c29-lower', 'C29', 'a file name with upper case letters', 'the compressed writer creates another file',
  [('writer/compressed/writer.go', '	fd, err := os.OpenFile(filename, ', '	fd, err := os.OpenFile(strings.ToLower(filename), '), ('writer/compressed/writer.go', '\t"os"\n', '\t"os"\n\t"strings"\n')],
  DRAW + '''func main() {
	_, _ = picture, draw
	for _, n := range []string{"a.png", "B.png"} {
		w, err := compressed.New(n, &compressed.Option{BlockSize: 2})
		if err == nil {
			err = code(1).Save(w)
		}
		fmt.Println(err)
	}
	l, _ := os.ReadDir(".")
	for _, f := range l {
		fmt.Printf("%q\\n", f.Name())
	}
}''', DI + [CO, 'os']),
S('c29-replace', 'C29', 'a name that is a hard link, or a file opened before', 'a new file takes the place of the old one',
  [('writer/compressed/writer.go', '	fd, err := os.OpenFile(filename, ', '''	if fi, err := os.Lstat(filename); err == nil && fi.Mode().IsRegular() {
		// start with a fresh file
		if err = os.Remove(filename); err != nil {
			return nil, err
		}
	}
	fd, err := os.OpenFile(filename, ''')],
  DRAW + '''func main() {
	_, _ = picture, draw
	os.WriteFile("a.png", []byte("old"), 0o644)
	os.Link("a.png", "b.png")
	w, err := compressed.New("b.png", &compressed.Option{BlockSize: 2})
	if err == nil {
		err = code(1).Save(w)
	}
	fmt.Println(err)
	for _, n := range []string{"a.png", "b.png"} {
		b, err := os.ReadFile(n)
		fmt.Println(n, len(b), err)
	}
}''', DI + [CO, 'os']),
S('c08-gradient-sort', 'C08', 'two saves at the same time with one gradient option', 'the stops are sorted in place while the other save reads them',
  [(G, '	// Convert angle to radians and compute gradient direction vector\n', '''	sort.SliceStable(g.Stops, func(i, j int) bool {
		return g.Stops[i].T < g.Stops[j].T
	})
	if len(g.Stops) > 1 && g.Stops[0].T == 0 {
		// the first stop reaches to the edge
		g.Stops[0].T = 0
	}
	// Convert angle to radians and compute gradient direction vector
''')], '''''') if False else None,
S('c20-line-buffer', 'C20', 'a line of more than 393 bytes', 'a character is cut in two',
  [('writer/file/writer.go', '''	for _, col := range output {
		for _, row := range col {
			_, err := a.out.WriteString(row)
			if err != nil {
				return err
			}
		}
''', '''	for _, col := range output {
		line := strings.Join(col, "")
		if len(line) > 393 {
			line = line[:393]
		}
		if _, err := a.out.WriteString(line); err != nil {
			return err
		}
'''), ('writer/file/writer.go', '\t"os"\n', '\t"os"\n\t"strings"\n')],
  DRAW + '''func main() {
	_, _ = picture, draw
	for _, v := range []int{1, 19, 30, 40} {
		f, err := os.Create("f")
		if err != nil {
			panic(err)
		}
		fmt.Println(code(v).Save(file.New(f)))
		f.Close()
		b, _ := os.ReadFile("f")
		fmt.Println(len(b), sha256.Sum256(b))
	}
}''', DI + [FI, 'os']),
S('c21-alt-key', 'C21', 'a key pressed together with Alt', 'it does not end the wait',
  [(T, '''		case termbox.EventKey:
			break wait
''', '''		case termbox.EventKey:
			if ev.Mod&termbox.ModAlt != 0 {
				continue
			}
			break wait
''')], '''func main() {
	termbox.Events = []termbox.Event{{Type: termbox.EventKey, Mod: termbox.ModAlt, Ch: 'x'}, {Type: termbox.EventKey, Ch: 'x'}}
	q, _ := qrcode.New("a")
	fmt.Println(q.Save(terminal.New()), len(termbox.Events))
}''', ['github.com/nsf/termbox-go', 'github.com/yeqown/go-qrcode/writer/terminal'], **TERM2),
S('c21-special-key', 'C21', 'a key which is no character', 'it does not end the wait',
  [(T, '''		case termbox.EventKey:
			break wait
''', '''		case termbox.EventKey:
			if ev.Ch == 0 && ev.Key >= termbox.KeyArrowRight && ev.Key <= termbox.KeyF1 {
				continue // not a character
			}
			break wait
''')], '''func main() {
	termbox.Events = []termbox.Event{{Type: termbox.EventKey, Key: termbox.KeyArrowUp}, {Type: termbox.EventKey, Ch: 'x'}}
	q, _ := qrcode.New("a")
	fmt.Println(q.Save(terminal.New()), len(termbox.Events))
}''', ['github.com/nsf/termbox-go', 'github.com/yeqown/go-qrcode/writer/terminal'], **TERM2),
S('c27-halftone-edge', 'C27', 'a halftone picture with a transparent background and circles', 'the light parts are painted white',
  [(W, 'SRC', 'DST')], '') if False else None,
]
SEEDS = [s for s in SEEDS if s]
