Q = 'qrcode.go'; E = 'encoder.go'; V = 'version.go'; VC = 'version_cfg.go'
def S(id, property, needs, breaks, edits, demo, imports=(), **kw):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=list(imports), **kw)

SEEDS = [
S('c01-count-bits-26', 'C01',
  'numeric, alphanumeric or kanji text in a symbol of version 26, the last of the middle group',
  'the character count is written with the width of the next group, so that a reader gets other text',
  [(E, '} else if v <= 26 {', '} else if v < 26 {')],
  '''func main() {
	for _, v := range []int{9, 10, 25, 26, 27} {
		for _, s := range []string{"123456", "ABC123", "漢字", "abc"} {
			q, err := qrcode.NewWith(s, qrcode.WithVersion(v))
			show(fmt.Sprint(v, s), q, err)
		}
	}
}'''),
S('c01-byte-mode-runes', 'C01',
  'byte mode text with a byte sequence which is not valid UTF-8',
  'invalid bytes are replaced by U+FFFD in the symbol',
  [(E, '\tcase EncModeNumeric, EncModeAlphanumeric, EncModeByte:\n\t\tdata = []byte(raw)', '\tcase EncModeNumeric, EncModeAlphanumeric, EncModeByte:\n\t\tdata = []byte(string([]rune(raw)))')],
  '''func main() {
	for _, s := range []string{"abc", "a\\xffb", "\\xc3", "\\xed\\xa0\\x80", "é"} {
		q, err := qrcode.New([]byte(s))
		show(fmt.Sprintf("%q", s), q, err)
	}
}'''),
S('c02-align-36', 'C02',
  'a symbol of version 36',
  'the second row and column of alignment patterns is at 22 instead of 24',
  [(V, '36: {6, 24, 50,', '36: {6, 22, 50,')],
  '''func main() {
	for _, v := range []int{35, 36, 37} {
		q, err := qrcode.NewWith("x", qrcode.WithVersion(v))
		show(fmt.Sprint(v), q, err)
	}
}'''),
S('c02-version-bits-31', 'C02',
  'a symbol of version 31',
  'one bit of both copies of the version information is wrong',
  [(V, '0x1f250,', '0x1f251,')],
  '''func main() {
	for _, v := range []int{30, 31, 32} {
		q, err := qrcode.NewWith("x", qrcode.WithVersion(v))
		show(fmt.Sprint(v), q, err)
	}
}'''),
S('c02-format-bits-q6', 'C02',
  'level Q together with mask 6 being the best mask',
  'the format information of both copies has one wrong bit',
  [(V, '{0x24b4, 0x34e3}, {0x2183, 0x31d4}, {0x2eda, 0x3e8d}', '{0x24b4, 0x34e3}, {0x2183, 0x31d4}, {0x2eca, 0x3e8d}')],
  '''func main() {
	for i := 0; i < 400; i++ {
		q, err := qrcode.NewWith(fmt.Sprint("text ", i), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionHighest))
		show(fmt.Sprint(i), q, err)
		q, err = qrcode.NewWith(fmt.Sprint("text ", i))
		show(fmt.Sprint(i), q, err)
	}
}'''),
S('c02-format-copy-col', 'C02',
  'a mask and level whose format information has a dark module next to the corner of the top-left finder pattern',
  'the copy of the format information along the column skips a module wrongly: bit at row 7 and 8',
  [(Q, '\t\tif y == dimension-8 {\n\t\t\ty = 8\n\t\t} else if y == 6 {', '\t\tif y == dimension-7 {\n\t\t\ty = 8\n\t\t} else if y == 6 {')],
  '''func main() {
	for i := 0; i < 20; i++ {
		q, err := qrcode.New(fmt.Sprint("text ", i))
		show(fmt.Sprint(i), q, err)
	}
}'''),
S('c03-group-order-40m', 'C03',
  'a symbol of version 40 with level M',
  'the longer blocks come first, so that data and error correction codewords are interleaved in another order',
  [(VC, '''				NumBlocks:            18,
				NumDataCodewords:     47,
				ECBlockwordsPerBlock: 28,
			},
			{
				NumBlocks:            31,
				NumDataCodewords:     48,
				ECBlockwordsPerBlock: 28,
''', '''				NumBlocks:            31,
				NumDataCodewords:     48,
				ECBlockwordsPerBlock: 28,
			},
			{
				NumBlocks:            18,
				NumDataCodewords:     47,
				ECBlockwordsPerBlock: 28,
''')],
  '''func main() {
	for _, v := range []int{39, 40} {
		q, err := qrcode.NewWith("hello", qrcode.WithVersion(v), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionMedium))
		show(fmt.Sprint(v), q, err)
	}
}'''),
S('c03-ec-words-36h', 'C03',
  'a symbol of version 36 with level H',
  'the blocks are split 3/63 instead of 2/64',
  [(VC, '''				NumBlocks:            2,
				NumDataCodewords:     15,
				ECBlockwordsPerBlock: 30,
			},
			{
				NumBlocks:            64,
				NumDataCodewords:     16,
''', '''				NumBlocks:            3,
				NumDataCodewords:     15,
				ECBlockwordsPerBlock: 30,
			},
			{
				NumBlocks:            63,
				NumDataCodewords:     16,
''')],
  '''func main() {
	for _, v := range []int{35, 36} {
		q, err := qrcode.NewWith("hello", qrcode.WithVersion(v), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionHighest))
		show(fmt.Sprint(v), q, err)
	}
}'''),
S('c03-remainder-17m', 'C03',
  'a symbol of version 17 with level M whose best mask leaves the remainder bits visible',
  'the remainder bits are not written: the last modules stay unmasked initial ones',
  [(VC, '''			Numeric:      1212,
			AlphaNumeric: 734,
			Byte:         504,
			JP:           310,
		},
		RemainderBits: 3,
''', '''			Numeric:      1212,
			AlphaNumeric: 734,
			Byte:         504,
			JP:           310,
		},
		RemainderBits: 0,
''')],
  '''func main() {
	for i := 0; i < 30; i++ {
		q, err := qrcode.NewWith(fmt.Sprint("hello", i), qrcode.WithVersion(17), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionMedium))
		show(fmt.Sprint(i), q, err)
	}
}'''),
S('c03-pad-parity', 'C03',
  'a text after which an even number of pad codewords follows',
  'the pad codewords alternate in the wrong phase',
  [(E, '\t\t\tif i%2 == 1 {\n\t\t\t\te.dst.Append(paddingByte1)', '\t\t\tif (n/8-i)%2 == 0 {\n\t\t\t\te.dst.Append(paddingByte1)')],
  '''func main() {
	for n := 1; n < 30; n++ {
		q, err := qrcode.NewWith("hello world, hello world, hello world"[:n], qrcode.WithVersion(4), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionLow))
		show(fmt.Sprint(n), q, err)
	}
}'''),
S('c04-jp-upper', 'C04',
  'a text of kanji with one of the last characters of the unified ideographs block, U+9FA0 (龠), which Shift JIS has',
  'the text is encoded in byte mode',
  [('chardet.go', 'isCJK := (r >= 0x4E00 && r <= 0x9FFF) ||', 'isCJK := (r >= 0x4E00 && r < 0x9FA0) ||')],
  '''func main() {
	for _, s := range []string{"龠", "漢龠", "龠漢", "漢字"} {
		q, err := qrcode.New(s)
		show(s, q, err)
	}
}'''),
S('c04-second-range', 'C04',
  'kanji whose Shift JIS code is 0xEAA4 (熙), the last of the second range in use',
  'the text is encoded in byte mode',
  [('chardet.go', '(code >= 0xE040 && code <= 0xEBBF)', '(code >= 0xE040 && code < 0xEAA4)')],
  '''func main() {
	for _, s := range []string{"熙", "漢熙", "凜", "漢字"} {
		q, err := qrcode.New(s)
		show(s, q, err)
	}
}'''),
S('c05-cap-23h-jp', 'C05',
  'kanji text of exactly 284 characters with level H',
  'version 24 is taken although version 23 holds the text',
  [(VC, '''			Byte:         461,
			JP:           284,''', '''			Byte:         461,
			JP:           283,''')],
  '''func main() {
	for _, n := range []int{282, 283, 284, 285} {
		q, err := qrcode.NewWith(strings.Repeat("漢", n), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionHighest))
		show(fmt.Sprint(n), q, err)
	}
}''', ['strings']),
S('c05-kanji-bytes', 'C05',
  'kanji text whose number of UTF-8 bytes exceeds the capacity of the smallest version that holds it',
  'a larger version than needed is chosen, and long texts are refused',
  [(V, '\tif mode == EncModeByte {\n\t\twant = len(raw)', '\tif mode == EncModeByte || mode == EncModeKanji {\n\t\twant = len(raw)')],
  '''func main() {
	for _, n := range []int{1, 2, 3, 4, 9, 400, 900} {
		q, err := qrcode.New(strings.Repeat("漢", n))
		show(fmt.Sprint(n), q, err)
	}
}''', ['strings']),
S('c05-explicit-version-fallback', 'C05',
  'an explicit version that is too small for the text, by at most the bits of the header',
  'instead of an error the text is truncated: the capacity test compares with the codewords rounded up',
  [(E, '\tif less := maxCap - e.dst.Len(); less < 0 {', '\tif less := maxCap - e.dst.Len(); less < -7 {'),
   (E, '\t} else if less < 4 {\n\t\te.dst.AppendNumBools(less, false)', '\t} else if less < 0 {\n\t\tdebugLogf("no room for the terminator")\n\t} else if less < 4 {\n\t\te.dst.AppendNumBools(less, false)')],
  '''func main() {
	for n := 15; n < 50; n++ {
		q, err := qrcode.NewWith(strings.Repeat("7", n), qrcode.WithVersion(1))
		show(fmt.Sprint(n), q, err)
		q, err = qrcode.NewWith(strings.Repeat("漢", n/3), qrcode.WithVersion(1))
		show(fmt.Sprint(n), q, err)
		q, err = qrcode.NewWith(strings.Repeat("A", n), qrcode.WithVersion(1))
		show(fmt.Sprint(n), q, err)
	}
}''', ['strings']),
S('c06-min-version-max', 'C06',
  'two minimum versions given, the second smaller than the first',
  'the larger one stays in force instead of the last one',
  [('encoder_option.go', '\t\toption.MinimumVersion = version\n', '\t\tif version > option.MinimumVersion {\n\t\t\toption.MinimumVersion = version\n\t\t}\n')],
  '''func main() {
	q, err := qrcode.NewWith("hello", qrcode.WithMinimumVersion(7), qrcode.WithMinimumVersion(3))
	show("7 3", q, err)
	q, err = qrcode.NewWith("hello", qrcode.WithMinimumVersion(3), qrcode.WithMinimumVersion(7))
	show("3 7", q, err)
}'''),
S('c06-level-clamped', 'C06',
  'an error correction level above the highest after a valid one',
  'it is taken as the highest level instead of being ignored',
  [('encoder_option.go', '''		if ecLevel < ErrorCorrectionLow || ecLevel > ErrorCorrectionHighest {
			return
		}
''', '''		if ecLevel < ErrorCorrectionLow {
			return
		}
		if ecLevel > ErrorCorrectionHighest {
			ecLevel = ErrorCorrectionHighest
		}
''')],
  '''func main() {
	q, err := qrcode.NewWith("hello", qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionLow), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionHighest+1))
	show("L 5", q, err)
	q, err = qrcode.NewWith("hello", qrcode.WithErrorCorrectionLevel(0))
	show("0", q, err)
}'''),
S('c06-version-resets-min', 'C06',
  'an out-of-range version after a valid one',
  'the out-of-range version resets the valid one to automatic',
  [('encoder_option.go', '''func WithVersion(version int) EncodeOption {
	return newFnEncodingOption(func(option *encodingOption) {
		if version < 1 || version > _VERSION_COUNT {
			return
		}
''', '''func WithVersion(version int) EncodeOption {
	return newFnEncodingOption(func(option *encodingOption) {
		if version < 1 || version > _VERSION_COUNT {
			version = 0
		}
''')],
  '''func main() {
	q, err := qrcode.NewWith("hello", qrcode.WithVersion(7), qrcode.WithVersion(0))
	show("7 0", q, err)
	q, err = qrcode.NewWith("hello", qrcode.WithVersion(7), qrcode.WithVersion(41))
	show("7 41", q, err)
}'''),
S('c07-done-before-score', 'C07',
  'a schedule in which the main goroutine runs between the Done of the last evaluating goroutine and its send',
  'the main goroutine closes the channel before the last score is sent: panic, or the score is missing',
  [(Q, '''			scoreChan <- maskScore{
				Score: score,
				Idx:   i,
			}

			_ = debugDraw(fmt.Sprintf("draft/qrcode_mask_%d.jpeg", i), *mats[i])

			wg.Done()
''', '''			_ = debugDraw(fmt.Sprintf("draft/qrcode_mask_%d.jpeg", i), *mats[i])

			wg.Done()

			scoreChan <- maskScore{
				Score: score,
				Idx:   i,
			}
''')],
  '''func main() {
	// many calls in parallel on few threads, so that goroutines are preempted at every point
	runtime.GOMAXPROCS(16)
	var wg sync.WaitGroup
	bad := make(chan string, 1000)
	want := ""
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				q, err := qrcode.New("7")
				if err != nil {
					bad <- "error"
					return
				}
				_ = q
			}
		}()
	}
	wg.Wait()
	close(bad)
	for b := range bad {
		fmt.Println(b)
	}
	_ = want
	fmt.Println("done")
}''', ['runtime', 'sync'], race=True),
S('c07-shared-score', 'C07',
  'a schedule in which two evaluating goroutines overlap',
  'the goroutines share one score variable, so that the score of one mask is taken for another',
  [(Q, '''	// generate 8 matrix with mask
	for i := 0; i < 8; i++ {
''', '''	// generate 8 matrix with mask
	var score int
	for i := 0; i < 8; i++ {
'''), (Q, '\t\t\tscore := evaluation(mats[i])\n', '\t\t\tscore = evaluation(mats[i])\n')],
  '''func main() {
	for i := 0; i < 50; i++ {
		q, err := qrcode.New(fmt.Sprint("text", i))
		show(fmt.Sprint(i), q, err)
	}
}''', race=True),
S('c07-lazy-kmp-table', 'C07',
  'the first encode of the process, with two evaluating goroutines overlapping in penalty rule 3',
  'the goroutines fill a shared table lazily without synchronisation',
  [('mask_evaluation.go', '''func rule3(mat *Matrix) (score int) {
	var (
		pattern1     = binaryToQRValueSlice("1011101 0000")
		pattern2     = binaryToQRValueSlice("0000 1011101")
		pattern1Next = kmpGetNext(pattern1)
		pattern2Next = kmpGetNext(pattern2)
	)
''', '''func rule3(mat *Matrix) (score int) {
	if pattern1Next == nil {
		pattern1Next = kmpGetNext(pattern1)
		pattern2Next = kmpGetNext(pattern2)
	}
'''), ('mask_evaluation.go', '// evaluation calculate a score after masking matrix.\n', '''var (
	// the patterns of rule3 and their next tables, calculated once
	pattern1     = binaryToQRValueSlice("1011101 0000")
	pattern2     = binaryToQRValueSlice("0000 1011101")
	pattern1Next []int
	pattern2Next []int
)

// evaluation calculate a score after masking matrix.
''')],
  '''func main() {
	q, err := qrcode.New("first")
	show("first", q, err)
}''', race=True),
S('c07-early-exit', 'C07',
  'a schedule in which a mask with a higher penalty reports before the lowest one',
  'goroutines skip reporting when another one has already found a penalty which is not higher than the own current partial one (racy shared minimum)',
  [(Q, '''	// generate 8 matrix with mask
	for i := 0; i < 8; i++ {
''', '''	// generate 8 matrix with mask, a score which is not lower than the best so far needs not be reported
	var (
		mu   sync.Mutex
		best = math.MaxInt32
	)
	for i := 0; i < 8; i++ {
'''), (Q, '''			scoreChan <- maskScore{
				Score: score,
				Idx:   i,
			}
''', '''			mu.Lock()
			lower := score < best
			if lower {
				best = score
			}
			mu.Unlock()
			if lower {
				scoreChan <- maskScore{
					Score: score,
					Idx:   i,
				}
			}
''')],
  '''func main() {
	// texts whose lowest penalty is shared by two masks: look for several results for one text
	for i := 0; i < 300; i++ {
		var first string
		diff := false
		for k := 0; k < 60; k++ {
			q, _ := qrcode.NewWith(fmt.Sprint(i), qrcode.WithVersion(1))
			c := &capture{}
			_ = q.Save(c)
			s := fmt.Sprint(c.m.Bitmap())
			if first == "" {
				first = s
			} else if s != first {
				diff = true
			}
		}
		if diff {
			fmt.Println(i, "differs")
		}
	}
	fmt.Println("done")
}'''),
S('c08-shared-encoder', 'C08',
  'two encodes at the same time, the second starting while the first is between choosing its encoder and using it',
  'the encoders are pooled per mode and level in a global map, so that one call writes its bits into the stream of another',
  [(E, '''	return &encoder{
		dst:     nil,
		mode:    m,
		ecLv:    ec,
		version: v,
	}
}
''', '''	encodersMu.Lock()
	defer encodersMu.Unlock()

	key := encoderKey{mode: m, ecLv: ec, ver: v.Ver}
	e, ok := encoders[key]
	if !ok {
		e = &encoder{mode: m, ecLv: ec, version: v}
		encoders[key] = e
	}

	return e
}

type encoderKey struct {
	mode encMode
	ecLv ecLevel
	ver  int
}

var (
	// encoders are stateless but for dst, which is renewed for every text
	encoders   = map[encoderKey]*encoder{}
	encodersMu sync.Mutex
)
'''), (E, '\t"strconv"\n', '\t"strconv"\n\t"sync"\n')],
  '''func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				_, _ = qrcode.New("hello")
			}
		}()
	}
	wg.Wait()
	fmt.Println("done")
}''', ['sync'], race=True),
S('c08-writer-global-buffer', 'C08',
  'two saves to file (text) writers at the same time',
  'the lines are assembled in a buffer which all writers share',
  [('writer/standard/writer.go', '''	top, right, bottom, left := opt.borderWidths[0], opt.borderWidths[1], opt.borderWidths[2], opt.borderWidths[3]
	// closer as image width''', '''	lastOption = opt
	top, right, bottom, left := opt.borderWidths[0], opt.borderWidths[1], opt.borderWidths[2], opt.borderWidths[3]
	// closer as image width'''),
   ('writer/standard/writer.go', '\t\tctx.color = opt.translateToRGBA(v)\n', '\t\tctx.color = lastOption.translateToRGBA(v)\n'),
   ('writer/standard/writer.go', '// draw deal QRCode\'s matrix', '// lastOption is the option of the drawing in progress.\nvar lastOption *outputImageOptions\n\n// draw deal QRCode\'s matrix')],
  '''type nop struct{ bytes.Buffer }

func (n *nop) Close() error { return nil }

func main() {
	q, err := qrcode.New("hello")
	show("q", q, err)
	var wg sync.WaitGroup
	bufs := make([]*nop, 4)
	for g := 0; g < 4; g++ {
		wg.Add(1)
		bufs[g] = &nop{}
		go func(g int) {
			defer wg.Done()
			_ = q.Save(standard.NewWithWriter(bufs[g], standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), standard.WithFgColorRGBHex([]string{"#ff0000", "#00ff00", "#0000ff", "#000000"}[g])))
		}(g)
	}
	wg.Wait()
	for _, b := range bufs {
		fmt.Println(b.Len(), sha256.Sum256(b.Bytes()))
	}
}''', ['sync', 'bytes', 'github.com/yeqown/go-qrcode/writer/standard'], race=True),
]
