import importlib.util, os
spec = importlib.util.spec_from_file_location('sw', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_writers.py'))
sw = importlib.util.module_from_spec(spec); spec.loader.exec_module(sw)
S, DRAW, DI, ST, SH, CO, FI, IK, W, O, A, G, P, T, TERM, TI, cli = sw.S, sw.DRAW, sw.DI, sw.ST, sw.SH, sw.CO, sw.FI, sw.IK, sw.W, sw.O, sw.A, sw.G, sw.P, sw.T, sw.TERM, sw.TI, sw.cli
Q = 'qrcode.go'; E = 'encoder.go'; V = 'version.go'; EO = 'encoder_option.go'; ME = 'mask_evaluation.go'
SEEDS = [
S('c03-block-memo', 'C03', 'two blocks that begin with the same eight codewords', 'the second one gets the error correction of the first',
  [(Q, '''		bset := reedsolomon.Encode(b.Data, b.NumECBlock)
		blocks[idx].Data, err = bset.Subset(b.StartOffset, bset.Len())
		if err != nil {
			panic(err)
		}
''', '''		head, err2 := b.Data.Subset(0, 64)
		if err2 == nil && done[head.String()] != nil && idx > 0 && dataBlocks[idx-1].StartOffset == b.StartOffset {
			// the same block again
			blocks[idx].Data = done[head.String()]
			continue
		}
		bset := reedsolomon.Encode(b.Data, b.NumECBlock)
		blocks[idx].Data, err = bset.Subset(b.StartOffset, bset.Len())
		if err != nil {
			panic(err)
		}
		if err2 == nil {
			done[head.String()] = blocks[idx].Data
		}
'''), (Q, '''	blocks = make([]ecBlock, q.v.TotalNumBlocks())
	for idx''', '''	blocks = make([]ecBlock, q.v.TotalNumBlocks())
	done := make(map[string]*binary.Binary)
	for idx''')],
  '''func main() {
	for n := 1; n < 40; n++ {
		q, err := qrcode.NewWith(strings.Repeat("a", n*5), qrcode.WithVersion(10), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionMedium))
		show(fmt.Sprint(n), q, err)
		b := bytes.Repeat([]byte{0x11, 0xec}, n+20)
		q, err = qrcode.NewWith(b, qrcode.WithVersion(10), qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionMedium))
		show(fmt.Sprint("b", n), q, err)
	}
}''', ['strings', 'bytes']),
S('c13-limit', 'C13', 'a picture of more than 4096 pixels', 'the blocks are smaller than the attribute says',
  [(W, '''	dc := gg.NewContext(w, h)

	// draw background''', '''	dc := gg.NewContext(w, h)
	if w > 4096 {
		small := *opt
		small.qrWidth = (4096 - left - right) / mat.Width()
		opt = &small
	}

	// draw background''')],
  DRAW + '''func main() {
	draw("a", code(25), standard.WithQRWidth(34))
	draw("b", code(25), standard.WithQRWidth(35))
	_ = picture
}''', DI),
S('c13-attribute-first', 'C13', 'the attribute asked for another dimension before saving', 'the picture is drawn with the size asked for first',
  [(O, '''	top, right, bottom, left := oo.borderWidths[0], oo.borderWidths[1], oo.borderWidths[2], oo.borderWidths[3]
	return &Attribute{''', '''	top, right, bottom, left := oo.borderWidths[0], oo.borderWidths[1], oo.borderWidths[2], oo.borderWidths[3]
	if dimension > 177 && oo.qrWidth > 1 {
		// no symbol is that large
		oo.qrWidth--
	}
	return &Attribute{''')],
  DRAW + '''func main() {
	_, _ = picture, draw
	for _, d := range []int{0, 21, 177, 178, 1000} {
		b := nop{}
		w := standard.NewWithWriter(&b, png, standard.WithQRWidth(3))
		w.Attribute(d)
		fmt.Println(d, *w.Attribute(21), code(1).Save(w), b.Len())
	}
}''', DI),
S('c14-palette-logo', 'C14', 'a logo with a palette, one entry of which is translucent', 'the translucent pixels cover the modules',
  [(W, '''	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2-opt.logo.Bounds().Min.X, (h-logoHeight)/2-opt.logo.Bounds().Min.Y)
''', '''	logo := opt.logoImage()
	if p, ok := logo.(*image.Paletted); ok {
		// drawn faster as RGBA
		m := image.NewRGBA(p.Rect)
		for y := p.Rect.Min.Y; y < p.Rect.Max.Y; y++ {
			for x := p.Rect.Min.X; x < p.Rect.Max.X; x++ {
				r, g, b, _ := p.At(x, y).RGBA()
				m.SetRGBA(x, y, color.RGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), 255})
			}
		}
		logo = m
	}
	dc.DrawImage(logo, (w-logoWidth)/2-opt.logo.Bounds().Min.X, (h-logoHeight)/2-opt.logo.Bounds().Min.Y)
'''), (W, '''	if opt.logoImage() == nil {
		goto done
	}

	// Log''', '''	if opt.logoImage() == nil {
		return dc.Image()
	}

	// Log'''), (W, '''			w, h, logoWidth, logoHeight, opt.logoSizeMultiplier)
		goto done
''', '''			w, h, logoWidth, logoHeight, opt.logoSizeMultiplier)
		return dc.Image()
'''), (W, '''
done:
	return dc.Image()''', '''
	return dc.Image()''')],
  DRAW + '''func main() {
	_ = picture
	p := image.NewPaletted(image.Rect(0, 0, 9, 9), color.Palette{color.RGBA{}, color.RGBA{255, 0, 0, 255}})
	for i := range p.Pix {
		p.Pix[i] = uint8(i % 2)
	}
	draw("a", code(1), standard.WithLogoImage(p))
	draw("b", code(3), standard.WithLogoImage(p), standard.WithLogoSafeZone())
}''', DI + ['image/color']),
S('c14-deep-logo', 'C14', 'a logo with 16 bits per channel', 'its colours are taken modulo 256',
  [(A, '''		if img == nil {
			return
		}

		oo.logo = img
''', '''		if img == nil {
			return
		}

		if deep, ok := img.(*image.NRGBA64); ok {
			m := image.NewNRGBA(deep.Rect)
			for y := deep.Rect.Min.Y; y < deep.Rect.Max.Y; y++ {
				for x := deep.Rect.Min.X; x < deep.Rect.Max.X; x++ {
					c := deep.NRGBA64At(x, y)
					m.SetNRGBA(x, y, color.NRGBA{uint8(c.R), uint8(c.G), uint8(c.B), uint8(c.A)})
				}
			}
			img = m
		}
		oo.logo = img
''')],
  DRAW + '''func main() {
	_ = picture
	p := image.NewNRGBA64(image.Rect(0, 0, 9, 9))
	for i := range p.Pix {
		p.Pix[i] = uint8(i * i % 251)
	}
	draw("a", code(1), standard.WithLogoImage(p))
}''', DI),
S('c16-many-stops', 'C16', 'more than eight stops', 'the stops around the middle are skipped',
  [(G, '''	for i := 0; i < len(stops)-1; i++ {
''', '''	lo := 0
	if len(stops) > 8 {
		lo = sort.Search(len(stops)-1, func(i int) bool { return stops[i].T >= t })
	}
	for i := lo; i < len(stops)-1; i++ {
''')],
  DRAW + '''func main() {
	_ = picture
	var s []standard.ColorStop
	for i := 0; i < 12; i++ {
		s = append(s, standard.ColorStop{T: float64(i) / 11, Color: color.RGBA{uint8(i * 77), uint8(i * 31), uint8(255 - i*20), 255}})
		draw(fmt.Sprint(i), code(1), standard.WithFgGradient(standard.NewGradient(20, append([]standard.ColorStop(nil), s...)...)))
	}
}''', DI + ['image/color']),
S('c18-stripe-wide', 'C18', 'stripes with blocks of more than 64 pixels', 'the stripes do not become wider than 64 pixels',
  [('writer/standard/shapes/blocks.go', '		r := fw * stripeRatio / 2\n\n		ctx.SetColor(ctx.Color())\n\n		mask := ctx.Neighbours()\n\n		drawRect := func(x, y, w, h float64) {\n			ctx.DrawRectangle(x, y, w, h)\n			ctx.Fill()\n		}\n\n		ctx.DrawCircle(cx, cy, r)\n\n		if has(mask, standard.NLeft|standard.NSelf) {', '		r := fw * stripeRatio / 2\n		if r > 32 {\n			r = 32\n		}\n\n		ctx.SetColor(ctx.Color())\n\n		mask := ctx.Neighbours()\n\n		drawRect := func(x, y, w, h float64) {\n			ctx.DrawRectangle(x, y, w, h)\n			ctx.Fill()\n		}\n\n		ctx.DrawCircle(cx, cy, r)\n\n		if has(mask, standard.NLeft|standard.NSelf) {')],
  DRAW + '''func main() {
	_ = picture
	for _, w := range []uint8{20, 64, 100} {
		draw(fmt.Sprint(w), code(1), standard.WithQRWidth(w), standard.WithCustomShape(shapes.Assemble(shapes.SquareFinder(), shapes.HStripeBlock(0.9))))
	}
}''', DI + [SH]),
S('c19-big-block', 'C19', 'a block size of more than 255', 'the block size is taken modulo 256',
  [('writer/compressed/writer.go', 'blockWidth := w.option.BlockSize\n', 'blockWidth := int(uint8(w.option.BlockSize))\n')],
  '''type nop struct{ bytes.Buffer }

func (*nop) Close() error { return nil }

func main() {
	for _, b := range []int{1, 200, 256, 300} {
		q, _ := qrcode.NewWith("a", qrcode.WithVersion(1))
		var n nop
		fmt.Println(b, q.Save(compressed.NewWithWriter(&n, &compressed.Option{Padding: 1, BlockSize: b})), n.Len())
	}
}''', ['bytes', CO]),
S('c21-clipped', 'C21', 'a symbol larger than the terminal', 'what lies outside is not drawn',
  [(T, '''	x1, y1 := x*2+2*padding, y+padding
''', '''	x1, y1 := x*2+2*padding, y+padding
	if tw, th := termbox.Size(); x1 >= tw || y1 >= th {
		return
	}
''')], '''func main() {
	for _, v := range []int{1, 10, 40} {
		out := run(v)
		fmt.Println(v, out)
	}
}''', TI, **TERM) if False else None,
S('c25-log-33', 'C25', 'a symbol of version 33 without debugging', 'something is logged',
  [(Q, '	q.v = loadVersion(opt.Version, opt.EcLevel)\n', '	q.v = loadVersion(opt.Version, opt.EcLevel)\n	if q.v.RemainderBits == 3 && q.v.Ver > 30 {\n		log.Printf("version %d has many modules", q.v.Ver)\n	}\n')],
  '''func main() {
	var b bytes.Buffer
	log.SetOutput(&b)
	for v := 1; v <= 40; v++ {
		_, err := qrcode.NewWith("a", qrcode.WithVersion(v))
		fmt.Println(v, err, b.Len())
	}
}''', ['bytes', 'log']),
S('c25-log-trailing', 'C25', 'an option that is ignored, without debugging', 'something is logged',
  [(EO, '''		if version < 1 || version > _VERSION_COUNT {
			return
		}

		option.Version = version
''', '''		if version < 1 || version > _VERSION_COUNT {
			log.Printf("no such version: %d", version)
			return
		}

		option.Version = version
'''), (EO, 'package qrcode\n', 'package qrcode\n\nimport "log"\n')], '''func main() {
	var b bytes.Buffer
	log.SetOutput(&b)
	for _, v := range []int{0, 1, 41, -3} {
		_, err := qrcode.NewWith("a", qrcode.WithVersion(v))
		fmt.Println(v, err, b.Len())
	}
}''', ['bytes', 'log']),
S('c26-deep-gray', 'C26', 'an image with 16 bits per channel', 'the grey value is computed from the upper eight bits',
  [(P, '''			c := color.GrayModel.Convert(src.At(j, i))
			gray.SetGray(j, i, c.(color.Gray))
''', '''			at := src.At(j, i)
			if d, ok := at.(color.RGBA64); ok {
				at = color.RGBA{uint8(d.R >> 8), uint8(d.G >> 8), uint8(d.B >> 8), uint8(d.A >> 8)}
			}
			c := color.GrayModel.Convert(at)
			gray.SetGray(j, i, c.(color.Gray))
''')], '''func main() {
	m := image.NewRGBA64(image.Rect(0, 0, 64, 64))
	for y := 0; y < 64; y++ {
		for x := 0; x < 64; x++ {
			m.SetRGBA64(x, y, color.RGBA64{uint16(x * 1000), uint16(y * 1001), uint16(x*y*15 + 255), 65535})
		}
	}
	fmt.Println(sha256.Sum256(imgkit.Gray(m).Pix))
}''', ['image', 'image/color', IK]),
S('c22-block-transparent', 'C22', 'the transparent flag together with circles and no border', 'the background is not transparent',
  None, []) if False else None,
S('c28-three', 'C28', 'a gradient, then transparency, then a background colour', 'the gradient is lost',
  [(A, '''		if c == nil {
			return
		}

		oo.bgColor = parseFromColor(c)
''', '''		if c == nil {
			return
		}

		if oo.bgTransparent && oo.qrGradient != nil {
			oo.qrGradient = nil
		}
		oo.bgColor = parseFromColor(c)
''')], DRAW + '''func main() {
	_ = picture
	g := standard.WithFgGradient(standard.NewGradient(0, standard.ColorStop{T: 0, Color: color.RGBA{255, 0, 0, 255}}))
	b := standard.WithBgColor(color.RGBA{0, 255, 0, 255})
	draw("a", code(1), g, b)
	draw("b", code(1), b, standard.WithBgTransparent(), g)
	draw("c", code(1), g, standard.WithBgTransparent(), b)
}''', DI + ['image/color']),
S('c10-large-rows', 'C10', 'a symbol of more than 128 modules a side', 'rule 3 looks at the first 128 rows and columns only',
  [(ME, '	for i := 0; i < dimension; i++ {\n		col := mat.Col(i)\n		row := mat.Row(i)\n		col, row = colorsOf', '	for i := 0; i < dimension && i < 128; i++ {\n		col := mat.Col(i)\n		row := mat.Row(i)\n		col, row = colorsOf')],
  '''func main() {
	for v := 26; v <= 40; v++ {
		for i := 0; i < 8; i++ {
			q, err := qrcode.NewWith(strings.Repeat(fmt.Sprint(i), 10+i*40), qrcode.WithVersion(v))
			show(fmt.Sprint(v, i), q, err)
		}
	}
}''', ['strings']),
S('c01-trailing-nul', 'C01', 'a byte slice that ends with a zero byte', 'the zero byte is cut off',
  [(Q, 'SRC', 'DST')], '''func main() {
	for _, b := range [][]byte{{0}, {1, 0}, {'a', 'b', 0, 0}, {0, 'a'}} {
		q, err := qrcode.NewWith(b)
		show(fmt.Sprint(b), q, err)
	}
}''') if False else None,
]
SEEDS = [s for s in SEEDS if s]
