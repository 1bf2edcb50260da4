from importlib.util import spec_from_file_location
Q = 'qrcode.go'; E = 'encoder.go'; V = 'version.go'; VC = 'version_cfg.go'
ST = 'github.com/yeqown/go-qrcode/writer/standard'
W = 'writer/standard/writer.go'
def S(id, property, needs, breaks, edits, demo, imports=(), **kw):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=list(imports), **kw)
NOP = '''type nop struct{ bytes.Buffer }

func (n *nop) Close() error { return nil }

func pic(q *qrcode.QRCode, w *standard.Writer, b *nop) string {
	b.Reset()
	if err := q.Save(w); err != nil {
		return "error"
	}
	return fmt.Sprintf("%x", sha256.Sum256(b.Bytes()))
}
'''
SEEDS = [
S('c01-alnum-odd', 'C01',
  'alphanumeric text of odd length whose last character is one of the last of the 45, : for example',
  'a single remaining character is written as value modulo 32',
  [(E, '\t\tbitsUsed := 6\n\t\tif charsRemaining > 1 {\n\t\t\tbitsUsed = 11\n\t\t}\n', '\t\tbitsUsed := 6\n\t\tif charsRemaining > 1 {\n\t\t\tbitsUsed = 11\n\t\t} else if value >= 44 {\n\t\t\tvalue &= 0x1f\n\t\t}\n')],
  '''func main() {
	for _, s := range []string{"A/", "A1/", "A1:", ":"} {
		q, err := qrcode.New(s)
		show(s, q, err)
	}
}'''),
S('c04-unicode-digits', 'C04',
  'a text of digits of which one is not an ASCII digit',
  'the text is put into numeric mode and garbled',
  [('chardet.go', "\treturn r >= '0' && r <= '9'\n}\n\n// analyzeAlphaNum", "\treturn unicode.IsDigit(r)\n}\n\n// analyzeAlphaNum"),
   ('chardet.go', '\t"errors"\n', '\t"errors"\n\t"unicode"\n')],
  '''func main() {
	for _, s := range []string{"123", "12٣", "１２"} {
		q, err := qrcode.New(s)
		show(s, q, err)
	}
}'''),
S('c05-no-v40', 'C05',
  'a text which needs version 40',
  'encoding without an explicit version fails',
  [(V, '\tfor ; step < 160; step += 4 {', '\tfor ; step < 156; step += 4 {')],
  '''func main() {
	for _, n := range []int{2800, 2809, 2810, 2953, 2954} {
		q, err := qrcode.NewWith(strings.Repeat("a", n), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionLow))
		show(fmt.Sprint(n), q, err)
	}
}''', ['strings']),
S('c06-named-trim', 'C06',
  'a named byte slice type with text that is not valid UTF-8',
  'named byte slice types encode differently from []byte',
  [(Q, '\tcase []byte:\n\t\treturn x\n', '\tcase []byte:\n\t\treturn bytes.TrimRight(x, "\\x00")\n'), (Q, '\t"fmt"\n\t"log"\n', '\t"bytes"\n\t"fmt"\n\t"log"\n')],
  '''type named []byte

func main() {
	for _, s := range []string{"a", "a\\x00", "\\x00\\x00", "a\\x00b"} {
		q, err := qrcode.New([]byte(s))
		show(fmt.Sprintf("%q", s), q, err)
		q, err = qrcode.New(named(s))
		show(fmt.Sprintf("%q", s), q, err)
	}
}'''),
S('c08-mask-template-cache', 'C08',
  'two first encodes of the same version at the same time, one of them taking a mask template the other has only just allocated',
  'mask templates are cached per version and published before they are computed, so that another call may use an empty mask',
  [('mask.go', '''	m := &mask{
		mat:      mat.Copy(),
		mode:     mode,
		moduloFn: getModuloFunc(mode),
	}
	m.masking()

	return m
}
''', '''	key := maskKey{size: mat.Width(), mode: mode}

	maskCacheMu.Lock()
	m, ok := maskCache[key]
	if !ok {
		m = &mask{
			mat:      mat.Copy(),
			mode:     mode,
			moduloFn: getModuloFunc(mode),
		}
		maskCache[key] = m
	}
	maskCacheMu.Unlock()

	if !ok {
		m.masking()
	}

	return m
}

type maskKey struct {
	size int
	mode maskPatternModulo
}

var (
	// masks depend on the size of the matrix and the mode only
	maskCache   = map[maskKey]*mask{}
	maskCacheMu sync.Mutex
)
'''), ('mask.go', 'package qrcode\n', 'package qrcode\n\nimport "sync"\n')],
  '''func main() {
	var wg sync.WaitGroup
	start := make(chan bool)
	for g := 0; g < 24; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			_, _ = qrcode.NewWith("x", qrcode.WithVersion(10))
		}()
	}
	close(start)
	wg.Wait()
	fmt.Println("done")
}''', ['sync'], race=True),
S('c09-halftone-cached', 'C09',
  'two symbols of different versions saved with one writer with a halftone image',
  'the scaled halftone image of the first symbol is used for the second one',
  [(W, '''			60,
		)
''', '''			60,
		)
		opt.halftoneImg = halftoneImg
''')],
  NOP + '''
func main() {
	img := image.NewGray(image.Rect(0, 0, 40, 40))
	for i := range img.Pix {
		img.Pix[i] = uint8(i * 7 % 251)
	}
	small, _ := qrcode.NewWith("a", qrcode.WithVersion(1))
	big, _ := qrcode.NewWith("a", qrcode.WithVersion(8))
	b := &nop{}
	f, _ := os.Create("h.png")
	_ = png.Encode(f, img)
	_ = f.Close()
	w := standard.NewWithWriter(b, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), standard.WithHalftone("h.png"))
	fmt.Println(pic(small, w, b))
	fmt.Println(pic(big, w, b))
	fmt.Println(pic(small, w, b))
}''', ['bytes', 'image', 'image/png', 'os', ST]),
S('c09-logo-dropped', 'C09',
  'one writer with a logo used first for a symbol too small for it, then for a larger one',
  'the logo is dropped from the options for good',
  [(W, '''			w, h, logoWidth, logoHeight, opt.logoSizeMultiplier)
		goto done
''', '''			w, h, logoWidth, logoHeight, opt.logoSizeMultiplier)
		opt.logo = nil
		goto done
''')],
  NOP + '''
func main() {
	img := image.NewGray(image.Rect(0, 0, 120, 120))
	small, _ := qrcode.NewWith("a", qrcode.WithVersion(1))
	big, _ := qrcode.NewWith("a", qrcode.WithVersion(8))
	b := &nop{}
	w := standard.NewWithWriter(b, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), standard.WithLogoImage(img), standard.WithBorderWidth(4))
	fmt.Println(pic(big, w, b))
	fmt.Println(pic(small, w, b))
	fmt.Println(pic(big, w, b))
}''', ['bytes', 'image', ST]),
S('c09-kanji-memo', 'C09',
  'a text with a character beyond U+FFFF analysed after a kanji text with the character which has the same low 16 bits, or the other way round',
  'whether a character is a kanji is remembered under its low 16 bits, so that the mode depends on earlier texts',
  [('chardet.go', '''	if !isCJK {
		return false
	}
''', '''	if v, ok := kanjiMemo.Load(uint16(r)); ok {
		return v.(bool)
	}

	if !isCJK {
		kanjiMemo.Store(uint16(r), false)
		return false
	}
'''), ('chardet.go', '''// analyzeJP checks if''', '''// kanjiMemo remembers for UTF-16 codes whether they are kanji.
var kanjiMemo sync.Map

// analyzeJP checks if'''), ('chardet.go', '\t"errors"\n', '\t"errors"\n\t"sync"\n')],
  '''func main() {
	q, err := qrcode.New("漢字")
	show("before", q, err)
	q, err = qrcode.New(string(rune(0x20000 + '亜')))
	show("other", q, err)
	q, err = qrcode.New("亜")
	show("after", q, err)
}'''),
S('c10-score-before-version', 'C10',
  'a symbol of version 7 or above for which the version information decides which mask is best',
  'the penalty is computed before the version information is drawn',
  [(Q, '''			// version7 and larger version has version info
			if q.v.Ver >= 7 {
				q.fillVersionInfo(mats[i], dimension)
			}

			// calculate score and decide the lowest score and Draw
			score := evaluation(mats[i])
''', '''			// calculate score and decide the lowest score and Draw
			score := evaluation(mats[i])

			// version7 and larger version has version info
			if q.v.Ver >= 7 {
				q.fillVersionInfo(mats[i], dimension)
			}
''')],
  '''func main() {
	for i := 0; i < 200; i++ {
		q, err := qrcode.NewWith(fmt.Sprint("text", i), qrcode.WithVersion(7))
		show(fmt.Sprint(i), q, err)
	}
}'''),
S('c10-rule2-last-row', 'C10',
  'a symbol for which a 2x2 block in the last two rows decides which mask is best',
  'blocks in the last two rows are not counted',
  [('mask_evaluation.go', '\t\tfor y := 0; y < mat.Height()-1; y++ {', '\t\tfor y := 0; y < mat.Height()-2; y++ {')],
  '''func main() {
	for i := 0; i < 300; i++ {
		q, err := qrcode.New(fmt.Sprint("text", i))
		show(fmt.Sprint(i), q, err)
	}
}'''),
S('c10-rule1-runs', 'C10',
  'a symbol for which a line which starts with at least four light modules decides which mask is best',
  'a run of light modules at the start of a line is counted one too long',
  [('mask_evaluation.go', 'lScore, cnt, cur := 0, 0, QRValue_INIT_V0', 'lScore, cnt, cur := 0, 1, QRValue_INIT_V0')],
  '''func main() {
	for i := 0; i < 300; i++ {
		q, err := qrcode.New(fmt.Sprint("text", i))
		show(fmt.Sprint(i), q, err)
	}
}'''),
S('c10-mask-order', 'C10',
  'a tie of the lowest penalty, or mask 7 being the best one',
  'the last mask is never considered',
  [(Q, '''	for c := range scoreChan {
		if c.Score < lowScore {
''', '''	for c := range scoreChan {
		if c.Score < lowScore && c.Idx < int(modulo7) {
''')],
  '''func main() {
	for i := 0; i < 100; i++ {
		q, err := qrcode.New(fmt.Sprint("text", i))
		show(fmt.Sprint(i), q, err)
	}
}'''),
S('c11-bitmap-cached', 'C11',
  'a writer that changes the bitmap it got and asks for it again',
  'the second bitmap is the changed first one',
  [('matrix.go', '''func (m *Matrix) Bitmap() [][]bool {
	table := make([][]bool, m.Height())
''', '''func (m *Matrix) Bitmap() [][]bool {
	if m.bitmap != nil {
		return m.bitmap
	}

	table := make([][]bool, m.Height())
'''), ('matrix.go', '''		table[y][x] = s.qrbool()
	})

	return table
''', '''		table[y][x] = s.qrbool()
	})
	m.bitmap = table

	return table
'''), ('matrix.go', '''	width  int
	height int
}
''', '''	width  int
	height int

	bitmap [][]bool // result of Bitmap
}
''')],
  '''func main() {
	q, _ := qrcode.New("hello")
	c := &capture{}
	_ = q.Save(c)
	b := c.m.Bitmap()
	b[0][0] = false
	fmt.Println(c.m.Bitmap()[0][0])
}'''),
S('c11-row-range', 'C11',
  'asking for the row just after the last one',
  'Row panics instead of returning nothing',
  [('matrix.go', '\tif cur >= m.height || cur < 0 {\n\t\treturn nil', '\tif cur > m.height || cur < 0 {\n\t\treturn nil')],
  '''func main() {
	q, _ := qrcode.New("hello")
	c := &capture{}
	_ = q.Save(c)
	fmt.Println(len(c.m.Row(q.Dimension() - 1)))
	fmt.Println(len(c.m.Row(q.Dimension())))
}'''),
S('c11-dark-label', 'C11',
  'looking at the label of the dark module',
  'the dark module is labelled as data',
  [(Q, '\t_ = m.set(x, y, QRValue_DARK_V1)', '\t_ = m.set(x, y, QRValue_DATA_V1)')],
  '''func main() {
	q, err := qrcode.New("hello")
	show("q", q, err)
}'''),
S('c11-version-label', 'C11',
  'looking at the labels of the light modules of the lower left version information (version 7 or above)',
  'they are labelled as format information',
  [(Q, '\t\t\t\t_ = m.set(j, dimension-8-i, QRValue_VERSION_V0)\n', '\t\t\t\t_ = m.set(j, dimension-8-i, QRValue_FORMAT_V0)\n')],
  '''func main() {
	for _, v := range []int{6, 7} {
		q, err := qrcode.NewWith("hello", qrcode.WithVersion(v))
		show(fmt.Sprint(v), q, err)
	}
}'''),
S('c12-close-after-failure', 'C12',
  'a writer whose Write fails',
  'Close is not called, the file stays open',
  [(Q, '''	defer func() {
		if err := w.Close(); err != nil {
			log.Printf("[WARNING] [go-qrcode] close writer failed: %v\\n", err)
		}
	}()

	return w.Write(*q.mat)
''', '''	if err := w.Write(*q.mat); err != nil {
		return err
	}

	if err := w.Close(); err != nil {
		log.Printf("[WARNING] [go-qrcode] close writer failed: %v\\n", err)
	}

	return nil
''')],
  '''type failing struct{ closed int }

func (f *failing) Write(m qrcode.Matrix) error { return errors.New("x") }
func (f *failing) Close() error                { f.closed++; return nil }

func main() {
	q, _ := qrcode.New("hello")
	f := &failing{}
	fmt.Println(q.Save(f), f.closed)
}''', ['errors']),
S('c12-file-buffered', 'C12',
  'a failure of the file (disk full, closed file) while a text picture is written',
  'the error is lost, the save reports success',
  [('writer/file/writer.go', '''	for _, col := range output {
		for _, row := range col {
			_, err := a.out.WriteString(row)
''', '''	out := bufio.NewWriter(a.out)
	defer out.Flush()

	for _, col := range output {
		for _, row := range col {
			_, err := out.WriteString(row)
'''), ('writer/file/writer.go', '\t\t_, err := a.out.WriteString("\\n")', '\t\t_, err := out.WriteString("\\n")'),
   ('writer/file/writer.go', 'import (\n', 'import (\n\t"bufio"\n')],
  '''func main() {
	q, _ := qrcode.New("hello")
	f, _ := os.Create("x")
	_ = f.Close()
	fmt.Println(q.Save(file.New(f)) != nil)
}''', ['os', 'github.com/yeqown/go-qrcode/writer/file']),
S('c12-standard-buffered', 'C12',
  'a stream that fails near the end of the picture',
  'the error of the last buffer is lost, the save reports success with an incomplete picture',
  [(W, '''	if err = option.imageEncoder.Encode(w, img); err != nil {
		err = fmt.Errorf("imageEncoder.Encode failed: %v", err)
	}

	return
''', '''	bw := bufio.NewWriterSize(w, 1<<16)
	defer bw.Flush()
	if err = option.imageEncoder.Encode(bw, img); err != nil {
		err = fmt.Errorf("imageEncoder.Encode failed: %v", err)
	}

	return
'''), (W, 'import (\n\t"fmt"', 'import (\n\t"bufio"\n\t"fmt"')],
  '''type limited struct{ n int }

func (l *limited) Write(b []byte) (int, error) {
	if len(b) > l.n {
		n := l.n
		l.n = 0
		return n, errors.New("full")
	}
	l.n -= len(b)
	return len(b), nil
}
func (l *limited) Close() error { return nil }

func main() {
	q, _ := qrcode.New("hello")
	for _, n := range []int{0, 100, 300, 1 << 20} {
		fmt.Println(n, q.Save(standard.NewWithWriter(&limited{n}, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))) != nil)
	}
}''', ['errors', ST]),
S('c12-close-error-returned', 'C12',
  'a writer whose Write and Close both fail',
  'the error of Close hides the error of Write',
  [(Q, '''func (q *QRCode) Save(w Writer) error {''', '''func (q *QRCode) Save(w Writer) (err error) {'''),
   (Q, '''		if err := w.Close(); err != nil {
			log.Printf''', '''		if err = w.Close(); err != nil {
			log.Printf''')],
  '''type failing struct{ w, c error }

func (f *failing) Write(m qrcode.Matrix) error { return f.w }
func (f *failing) Close() error                { return f.c }

func main() {
	q, _ := qrcode.New("hello")
	fmt.Println(q.Save(&failing{errors.New("w"), errors.New("c")}))
	fmt.Println(q.Save(&failing{errors.New("w"), nil}))
	fmt.Println(q.Save(&failing{}))
}''', ['errors']),
]
