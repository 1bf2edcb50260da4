ST = 'github.com/yeqown/go-qrcode/writer/standard'
SH = 'github.com/yeqown/go-qrcode/writer/standard/shapes'
IK = 'github.com/yeqown/go-qrcode/writer/standard/imgkit'
CO = 'github.com/yeqown/go-qrcode/writer/compressed'
FI = 'github.com/yeqown/go-qrcode/writer/file'
W = 'writer/standard/writer.go'
O = 'writer/standard/image_option.go'
A = 'writer/standard/image_option_api.go'
G = 'writer/standard/gradient.go'
P = 'writer/standard/imgkit/process.go'
def S(id, property, needs, breaks, edits, demo='', imports=(), **kw):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=list(imports), **kw)
DRAW = '''type nop struct{ bytes.Buffer }

func (n *nop) Close() error { return nil }

var png = standard.WithBuiltinImageEncoder(standard.PNG_FORMAT)

func draw(label string, q *qrcode.QRCode, opts ...standard.ImageOption) {
	b := &nop{}
	w := standard.NewWithWriter(b, append([]standard.ImageOption{png}, opts...)...)
	if err := q.Save(w); err != nil {
		fmt.Println(label, "error")
		return
	}
	fmt.Printf("%s %v %x\\n", label, *w.Attribute(q.Dimension()), sha256.Sum256(b.Bytes()))
}

func code(v int) *qrcode.QRCode {
	q, err := qrcode.NewWith("hello", qrcode.WithVersion(v))
	if err != nil {
		panic(err)
	}
	return q
}

func picture(w, h int) image.Image {
	m := image.NewRGBA(image.Rect(0, 0, w, h))
	for i := range m.Pix {
		m.Pix[i] = uint8(i * 37 % 251)
		if i%4 == 3 {
			m.Pix[i] = 255
		}
	}
	return m
}

'''
DI = ['bytes', 'image', ST]
TERM_STUB = r'''package termbox

import "fmt"

type Attribute uint64
type EventType uint8
type InputMode int
type OutputMode int
type Modifier uint8
type Key uint16

const (
	ColorDefault Attribute = iota
	ColorBlack
	ColorRed
	ColorGreen
	ColorYellow
	ColorBlue
	ColorMagenta
	ColorCyan
	ColorWhite
)

const (
	EventKey EventType = iota
	EventResize
	EventMouse
	EventError
	EventInterrupt
	EventRaw
	EventNone
)
const (
	InputEsc InputMode = 1 << iota
	InputAlt
	InputMouse
	InputCurrent InputMode = 0
)
const (
	OutputCurrent OutputMode = iota
	OutputNormal
	Output256
	Output216
	OutputGrayscale
)

type Event struct {
	Type                 EventType
	Mod                  Modifier
	Key                  Key
	Ch                   rune
	Width, Height, N     int
	MouseX, MouseY       int
	Err                  error
}

var (
	Events   []Event
	FlushErr error
	Log      []string
	cells    = map[[2]int]string{}
)

func Init() error                          { return nil }
func Close()                               { Log = append(Log, "close") }
func SetInputMode(m InputMode) InputMode   { return m }
func SetOutputMode(m OutputMode) OutputMode { return m }
func SetCell(x, y int, ch rune, fg, bg Attribute) { cells[[2]int{x, y}] = fmt.Sprint(ch, fg, bg) }
func Clear(fg, bg Attribute) error {
	cells = map[[2]int]string{}
	return nil
}
func Sync() error { return nil }
func Flush() error {
	h := uint64(1469598103934665603)
	for y := -5; y < 300; y++ {
		for x := -5; x < 500; x++ {
			for _, c := range cells[[2]int{x, y}] + "|" {
				h = (h ^ uint64(c)) * 1099511628211
			}
		}
	}
	Log = append(Log, fmt.Sprintf("flush %x", h))
	return FlushErr
}
func PollEvent() Event {
	e := Events[0]
	Events = Events[1:]
	Log = append(Log, fmt.Sprint("event ", e.Type))
	return e
}
func Size() (int, int) { return 200, 100 }
'''
TERM_BODY = r'''mkdir "$tmp/termbox"
cp "$here/termstub.go.txt" "$tmp/termbox/termbox.go"
printf 'module github.com/nsf/termbox-go\n\ngo 1.19\n' >"$tmp/termbox/go.mod"
{
  echo 'go 1.20'
  echo 'use ('
  echo './demo'
  for m in . writer/terminal; do echo "\"$repo/$m\""; done
  echo ')'
  echo "replace github.com/nsf/termbox-go => \"$tmp/termbox\""
} >"$tmp/go.work"
(cd "$tmp/demo" && go build -o "$tmp/prog" .) || exit 3
(cd "$tmp/run" && timeout 60 "$tmp/prog" >"$tmp/out.txt" 2>"$tmp/err.txt")
rc=$?
if [ $rc -ne 0 ]; then echo "program ended with status $rc"; tail -n 20 "$tmp/err.txt"; exit 1; fi
if [ "$GEN_EXPECTED" ]; then cp "$tmp/out.txt" "$GEN_EXPECTED"; exit 0; fi
diff "$here/expected.txt" "$tmp/out.txt" || exit 1
exit 0'''
TERM = dict(files={'termstub.go.txt': TERM_STUB}, body=TERM_BODY)
TERM_MAIN = '''func run(v int, flush error, ev ...termbox.EventType) {
	q, _ := qrcode.NewWith("hello", qrcode.WithVersion(v))
	termbox.Log, termbox.FlushErr = nil, flush
	termbox.Events = nil
	for _, e := range ev {
		termbox.Events = append(termbox.Events, termbox.Event{Type: e, Width: 20, Height: 20, Ch: 'x'})
	}
	termbox.Events = append(termbox.Events, termbox.Event{Type: termbox.EventKey, Key: 13})
	err := q.Save(terminal.New())
	fmt.Println(v, err, termbox.Log)
}

func main() {
	run(1, nil)
	run(1, nil, termbox.EventMouse, termbox.EventResize)
	run(2, nil, termbox.EventResize, termbox.EventInterrupt, termbox.EventError, termbox.EventNone)
	run(7, errors.New("no"))
	run(40, nil, termbox.EventKey)
}'''
TI = ['errors', 'github.com/nsf/termbox-go', 'github.com/yeqown/go-qrcode/writer/terminal']
CLI_BODY = r'''{
  echo 'go 1.20'
  echo 'use ('
  for m in . writer/standard writer/terminal cmd/qrcode; do echo "\"$repo/$m\""; done
  echo ')'
} >"$tmp/go.work"
(cd "$repo/cmd/qrcode" && go build -o "$tmp/qrcode" .) || exit 3
cd "$tmp/run"
mkdir -p 'a.png/b' d.dir
: >"$tmp/out.txt"
n=0
run() {
  n=$((n + 1))
  timeout 60 "$tmp/qrcode" "$@" >o 2>e
  rc=$?
  echo "$n status $rc stderr $([ -s e ] && echo yes || echo no)" >>"$tmp/out.txt"
  rm -f o e
  find . -type f | sort | while read -r f; do echo "  $f $(head -c 4 "$f" | od -An -tx1 | tr -d ' ') $(sha256sum <"$f" | cut -c1-16)" >>"$tmp/out.txt"; done
  find . -type f -delete
}
%s
if [ "$GEN_EXPECTED" ]; then cp "$tmp/out.txt" "$GEN_EXPECTED"; exit 0; fi
diff "$here/expected.txt" "$tmp/out.txt" || exit 1
exit 0'''
WASM_BODY = r'''{
  echo 'go 1.20'
  echo 'use ('
  for m in . writer/standard cmd/wasm; do echo "\"$repo/$m\""; done
  echo ')'
} >"$tmp/go.work"
(cd "$repo/cmd/wasm" && GOOS=js GOARCH=wasm go build -o "$tmp/qr.wasm" .) || exit 3
command -v node >/dev/null || export PATH=/opt/veriftools/node/bin:$PATH
(cd "$tmp/run" && timeout 200 node "$here/run.js" "$(go env GOROOT)/lib/wasm/wasm_exec.js" "$tmp/qr.wasm" >"$tmp/out.txt" 2>"$tmp/err.txt")
rc=$?
if [ $rc -ne 0 ]; then echo "program ended with status $rc"; tail -n 20 "$tmp/err.txt"; exit 1; fi
if [ "$GEN_EXPECTED" ]; then cp "$tmp/out.txt" "$GEN_EXPECTED"; exit 0; fi
diff "$here/expected.txt" "$tmp/out.txt" || exit 1
exit 0'''
RUN_JS = r'''require(process.argv[2]);
const fs = require('fs'), crypto = require('crypto');
const log = console.log;
console.log = () => {};
const go = new Go();
go.exit = c => { log('program ended'); process.exit(1); };
WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject).then(async r => {
  go.run(r.instance);
  await 0;
  const t = (...a) => {
    const v = generateQRCode(...a);
    log(JSON.stringify(a), v.success, v.success ? crypto.createHash('sha256').update(v.base64EncodedImage).digest('hex').slice(0, 16) : 'error');
  };
%s
  process.exit(0);
}).catch(e => { log(String(e)); process.exit(1); });
'''
def wasm(id, needs, breaks, edits, calls):
    return S(id, 'C23', needs, breaks, edits, body=WASM_BODY, files={'run.js': RUN_JS % '\n'.join('  t(%s);' % c for c in calls)})
def cli(id, needs, breaks, edits, runs):
    return S(id, 'C22', needs, breaks, edits, body=CLI_BODY % '\n'.join(runs))
T = 'writer/terminal/writer.go'
SEEDS = [
S('c13-width-255', 'C13', 'a block width of 255', 'the default width of 20 is used',
  [(O, '(oo.qrWidth <= 0 || oo.qrWidth > 255)', '(oo.qrWidth <= 0 || oo.qrWidth >= 255)')],
  DRAW + '''func main() {
	for _, w := range []uint8{1, 254, 255} {
		draw(fmt.Sprint(w), code(1), standard.WithQRWidth(w))
	}
}''', DI),
S('c13-top-left-swapped', 'C13', 'different top and left borders', 'the modules are shifted by the wrong border',
  [(W, 'ctx.x, ctx.y = float64(x*opt.qrBlockWidth()+left), float64(y*opt.qrBlockWidth()+top)', 'ctx.x, ctx.y = float64(x*opt.qrBlockWidth()+left), float64(y*opt.qrBlockWidth()+bottom)')],
  DRAW + '''func main() {
	draw("3", code(1), standard.WithBorderWidth(3, 5, 7, 9))
	draw("4", code(1), standard.WithBorderWidth(3, 5))
}''', DI),
S('c14-wide-logo', 'C14', 'a logo that is wide but not high', 'a logo too wide for the picture is drawn',
  [(W, 'qrWidth >= logoSizeMultiplier*logoWidth && qrHeight >= logoSizeMultiplier*logoHeight', 'qrHeight >= logoSizeMultiplier*logoHeight && qrWidth >= (logoSizeMultiplier-1)*logoWidth')],
  DRAW + '''func main() {
	for _, n := range []int{40, 100, 101, 110, 120, 130} {
		draw(fmt.Sprint(n), code(1), standard.WithLogoImage(picture(n, 30)))
		draw(fmt.Sprint(n), code(1), standard.WithLogoImage(picture(30, n)))
	}
}''', DI),
S('c14-touching-blocks', 'C14', 'a logo whose edge coincides with the edge of a block, with the safe zone', 'blocks which only touch the logo are cleared',
  [(W, 'return blockRight > logoLeft && blockLeft < logoRight &&', 'return blockRight >= logoLeft && blockLeft < logoRight &&')],
  DRAW + '''func main() {
	for n := 30; n < 70; n += 3 {
		draw(fmt.Sprint(n), code(1), standard.WithQRWidth(10), standard.WithBorderWidth(20), standard.WithLogoImage(picture(n, n)), standard.WithLogoSafeZone())
	}
}''', DI),
S('c14-odd-difference', 'C14', 'an odd difference between the sizes of picture and logo, with the safe zone', 'the safe zone is rounded up where the logo is rounded down',
  [(W, 'logoLeft := (w - logoWidth) / 2', 'logoLeft := (w - logoWidth + 1) / 2')],
  DRAW + '''func main() {
	for n := 30; n < 60; n++ {
		draw(fmt.Sprint(n), code(1), standard.WithQRWidth(10), standard.WithBorderWidth(20), standard.WithLogoImage(picture(n, 30)), standard.WithLogoSafeZone())
	}
}''', DI),
S('c14-logo-over-gradient', 'C14', 'a logo together with a gradient of the modules, the logo having pixels of the foreground colour', 'the gradient recolours the logo too',
  [(W, '''		img := opt.qrGradient.applyGradient(dc.Image(), opt.qrColor)
''', '''		if logoValid {
			dc.DrawImage(opt.logoImage(), (w-logoWidth)/2-opt.logo.Bounds().Min.X, (h-logoHeight)/2-opt.logo.Bounds().Min.Y)
		}
		img := opt.qrGradient.applyGradient(dc.Image(), opt.qrColor)
'''), (W, '''		goto done
	}

	// DONE(@yeqown): calculate the xOffset''', '''		goto done
	}

	if opt.qrGradient != nil {
		goto done // already drawn
	}

	// DONE(@yeqown): calculate the xOffset''')],
  DRAW + '''func main() {
	g := standard.NewGradient(30, standard.ColorStop{T: 0, Color: color.RGBA{255, 0, 0, 255}}, standard.ColorStop{T: 1, Color: color.RGBA{0, 0, 255, 255}})
	black := image.NewRGBA(image.Rect(0, 0, 40, 40))
	for i := 3; i < len(black.Pix); i += 4 {
		black.Pix[i] = 255
	}
	draw("g", code(1), standard.WithFgGradient(g))
	draw("gl", code(1), standard.WithFgGradient(g), standard.WithLogoImage(black))
}''', DI + ['image/color']),
S('c15-light-centre', 'C15', 'a light data module over a dark part of the halftone image', 'the centre of light modules is left to the image',
  [(W, '\t\t\t\t\tif i == 1 && j == 1 {', '\t\t\t\t\tif i == 1 && j == 1 && v.IsSet() {')],
  DRAW + '''func main() {
	draw("h", code(1), standard.WithHalftoneImage(image.NewGray(image.Rect(0, 0, 30, 30))))
	draw("w", code(3), standard.WithQRWidth(7), standard.WithHalftoneImage(picture(60, 30)))
}''', DI),
S('c15-timing-halftone', 'C15', 'a halftone image', 'timing modules are drawn as halftone cells',
  [(W, '\t\tcase qrcode.QRType_DATA:\n', '\t\tcase qrcode.QRType_DATA, qrcode.QRType_TIMING:\n')],
  DRAW + '''func main() {
	draw("h", code(1), standard.WithHalftoneImage(picture(30, 30)))
	draw("n", code(1))
}''', DI),
S('c15-threshold-transparent', 'C15', 'a halftone image together with a transparent background', 'the light parts of the image are drawn opaque white',
  [(W, '''		if transparent {
			return color.RGBA{}
		}
		return''', '''		if transparent && x%3 != 1 {
			return color.RGBA{}
		}
		return''')],
  DRAW + '''func main() {
	draw("h", code(1), standard.WithHalftoneImage(picture(30, 30)))
	draw("t", code(1), standard.WithHalftoneImage(picture(30, 30)), standard.WithBgTransparent())
}''', DI),
S('c15-cells-transposed', 'C15', 'a halftone image which is not symmetric', 'the cells of a module are taken transposed from the image',
  [(W, 'opt.bgTransparent, x*3+i, y*3+j)', 'opt.bgTransparent, x*3+j, y*3+i)')],
  DRAW + '''func main() {
	draw("h", code(1), standard.WithHalftoneImage(picture(63, 63)))
}''', DI),
S('c16-unsorted-stops', 'C16', 'stops given in another order than from 0 to 1', 'the colours are wrong',
  [(G, '''	sort.Slice(stops, func(i, j int) bool {
		return stops[i].T < stops[j].T
	})
''', '''	if len(stops) > 2 {
		sort.Slice(stops, func(i, j int) bool {
			return stops[i].T < stops[j].T
		})
	}
''')],
  DRAW + '''func main() {
	a, b := standard.ColorStop{T: 0, Color: color.RGBA{255, 0, 0, 255}}, standard.ColorStop{T: 1, Color: color.RGBA{0, 0, 255, 255}}
	draw("ab", code(1), standard.WithFgGradient(standard.NewGradient(30, a, b)))
	draw("ba", code(1), standard.WithFgGradient(standard.NewGradient(30, b, a)))
}''', DI + ['image/color']),
S('c16-angle-int', 'C16', 'an angle that is not a whole number of degrees', 'the fraction of the angle is cut off',
  [(G, 'angleRad := g.Angle * math.Pi / 180.0', 'angleRad := float64(int(g.Angle)%360) * math.Pi / 180.0')],
  DRAW + '''func main() {
	a, b := standard.ColorStop{T: 0, Color: color.RGBA{255, 0, 0, 255}}, standard.ColorStop{T: 1, Color: color.RGBA{0, 0, 255, 255}}
	for _, d := range []float64{0, 45, 45.5, -89.25} {
		draw(fmt.Sprint(d), code(1), standard.WithFgGradient(standard.NewGradient(d, a, b)))
	}
}''', DI + ['image/color']),
S('c16-same-stop', 'C16', 'two stops at the same position in the middle', 'pixels exactly between take a colour blended with an infinite factor',
  [(G, 'if t >= start.T && t <= end.T {', 'if t >= start.T && t < end.T || i == len(stops)-3 {')],
  DRAW + '''func main() {
	c := func(t float64, r, b uint8) standard.ColorStop { return standard.ColorStop{T: t, Color: color.RGBA{r, 0, b, 255}} }
	draw("3", code(1), standard.WithFgGradient(standard.NewGradient(0, c(0, 255, 0), c(0.5, 0, 255), c(1, 255, 255))))
	draw("4", code(1), standard.WithFgGradient(standard.NewGradient(0, c(0, 255, 0), c(0.3, 0, 255), c(0.6, 255, 255), c(1, 0, 0))))
}''', DI + ['image/color']),
S('c16-three-stops-clamp', 'C16', 'a first stop above 0', 'pixels before the first stop are extrapolated to the fallback colour',
  [(G, '\tif t <= stops[0].T {\n', '\tif t <= stops[0].T && stops[0].T <= 0.5 {\n')],
  DRAW + '''func main() {
	c := func(t float64, r, b uint8) standard.ColorStop { return standard.ColorStop{T: t, Color: color.RGBA{r, 0, b, 255}} }
	draw("a", code(1), standard.WithFgGradient(standard.NewGradient(0, c(0.4, 255, 0), c(0.5, 0, 255))))
	draw("b", code(1), standard.WithFgGradient(standard.NewGradient(0, c(0.7, 255, 0), c(0.9, 0, 255))))
}''', DI + ['image/color']),
S('c17-stale-neighbours', 'C17', 'a custom shape that looks at the neighbours of light modules', 'light modules get the neighbours of the last dark one',
  [(W, '\t\tctx.neighbours = getNeighbours(bitMap, x, y)\n', '\t\tif v.IsSet() {\n\t\t\tctx.neighbours = getNeighbours(bitMap, x, y)\n\t\t}\n')],
  DRAW + '''type rec struct{ s string }

func (r *rec) Draw(c *standard.DrawContext) {
	x, y := c.UpperLeft()
	r.s += fmt.Sprint(x, y, c.Neighbours(), c.Color())
}
func (r *rec) DrawFinder(c *standard.DrawContext) { r.Draw(c) }

func main() {
	r := &rec{}
	draw("x", code(1), standard.WithCustomShape(r))
	fmt.Printf("%x\\n", sha256.Sum256([]byte(r.s)))
	_ = picture
}''', DI),
S('c17-finder-splitter', 'C17', 'a custom shape with different finder and block drawing', 'splitter modules are drawn with the finder call',
  [(W, '\t\tcase qrcode.QRType_FINDER:\n', '\t\tcase qrcode.QRType_FINDER, qrcode.QRType_SPLITTER:\n')],
  DRAW + '''type rec struct{ a, b int }

func (r *rec) Draw(c *standard.DrawContext)       { r.a++ }
func (r *rec) DrawFinder(c *standard.DrawContext) { r.b++ }

func main() {
	r := &rec{}
	draw("x", code(1), standard.WithCustomShape(r))
	fmt.Println(*r)
	_ = picture
}''', DI),
S('c17-edge-column', 'C17', 'a custom shape that looks at the right neighbours of modules in the last column', 'the row below is taken for the outside (wraps around)',
  [(W, 'if ny >= 0 && ny < rows && nx >= 0 && nx < cols && mtx[ny][nx] {', 'if ny >= 0 && ny < rows && mtx[ny][(nx+cols)%cols] {')],
  DRAW + '''type rec struct{ s string }

func (r *rec) Draw(c *standard.DrawContext) { r.s += fmt.Sprint(c.Neighbours()) }
func (r *rec) DrawFinder(c *standard.DrawContext) { r.Draw(c) }

func main() {
	r := &rec{}
	draw("x", code(1), standard.WithCustomShape(r))
	fmt.Printf("%x\\n", sha256.Sum256([]byte(r.s)))
	_ = picture
}''', DI),
S('c18-square-offset', 'C18', 'square blocks smaller than the block', 'the squares are not centred, small ones miss the centre',
  [('writer/standard/shapes/blocks.go', '''		x, y := cx-fw/2, cy-fh/2

		ctx.SetColor(ctx.Color())
		ctx.DrawRectangle(x, y, fw, fh)
''', '''		x, y := cx-fw/2, cy-fh/2
		if size < 0.5 {
			x, y = x0, y0
		}

		ctx.SetColor(ctx.Color())
		ctx.DrawRectangle(x, y, fw, fh)
''')],
  DRAW + '''func main() {
	for _, s := range []float64{0.1, 0.3, 0.5, 1, 2} {
		draw(fmt.Sprint(s), code(1), standard.WithCustomShape(shapes.Assemble(shapes.SquareFinder(), shapes.SquareBlocks(s))))
	}
	_ = picture
}''', DI + [SH]),
S('c18-finder-light-skip', 'C18', 'the rounded finder on a background which is drawn over by neighbours', 'light finder modules next to... a corner case of the rounded finder draws outwards',
  [('writer/standard/shapes/finders.go', '''		case mask == (standard.NSelf | standard.NTop | standard.NLeft):
			ctx.MoveTo(x, y+fh)
			ctx.QuadraticTo(x+fw, y+fh, x+fw, y)
			ctx.LineTo(x, y-lh)
			ctx.QuadraticTo(x, y, x-lw, y)
''', '''		case mask == (standard.NSelf | standard.NTop | standard.NLeft):
			ctx.MoveTo(x, y+fh)
			ctx.QuadraticTo(x+fw, y+fh, x+fw, y)
			ctx.LineTo(x, y-fh)
			ctx.QuadraticTo(x-fw, y-fh, x-fw, y)
''')],
  DRAW + '''func main() {
	draw("r", code(1), standard.WithCustomShape(shapes.Assemble(shapes.RoundedFinder(), shapes.LiquidBlock())))
	_ = picture
}''', DI + [SH]),
S('c18-stripe-range', 'C18', 'a stripe ratio of exactly 1', 'the upper end of the documented range is treated as out of range',
  [('writer/standard/shapes/blocks.go', '''func VStripeBlock(stripeRatio float64) func(ctx *standard.DrawContext) {
''', '''func VStripeBlock(stripeRatio float64) func(ctx *standard.DrawContext) {
	if stripeRatio == 1 {
		stripeRatio = 0.85
	}
''')],
  DRAW + '''func main() {
	for _, s := range []float64{0.6, 0.85, 0.9, 1, 2} {
		draw(fmt.Sprint(s), code(1), standard.WithCustomShape(shapes.Assemble(shapes.SquareFinder(), shapes.VStripeBlock(s))))
	}
	_ = picture
}''', DI + [SH]),
S('c18-chain-light', 'C18', 'a light module to the right of a dark one with the chain shape', 'light modules draw their link over the centre of the dark module to their left',
  [('writer/standard/shapes/blocks.go', '''			drawRect(cx-l, y, 2*l, fh/2)
		}
		if has(mask, standard.NBot|standard.NSelf) {
			drawRect(cx-l, cy, 2*l, fh/2)
		}
		if has(mask, standard.NLeft|standard.NSelf) {
			drawRect(x, cy-l, fw/2, 2*l)
		}
		if has(mask, standard.NRight|standard.NSelf) {
			drawRect(cx, cy-l, fw/2, 2*l)
		}

		ctx.Fill()
	}
}

// VChainBlock''', '''			drawRect(cx-l, y, 2*l, fh/2)
		}
		if has(mask, standard.NBot|standard.NSelf) {
			drawRect(cx-l, cy, 2*l, fh/2)
		}
		if has(mask, standard.NLeft) {
			drawRect(x-fw/2, cy-l, fw, 2*l)
		}
		if has(mask, standard.NRight|standard.NSelf) {
			drawRect(cx, cy-l, fw/2, 2*l)
		}

		ctx.Fill()
	}
}

// VChainBlock''')],
  DRAW + '''func main() {
	draw("c", code(1), standard.WithCustomShape(shapes.Assemble(shapes.SquareFinder(), shapes.ChainBlock())))
	_ = picture
}''', DI + [SH]),
S('c19-padding-limit', 'C19', 'a padding of more than 64 pixels', 'the padding is limited',
  [('writer/compressed/writer.go', '\tpadding := w.option.Padding\n', '\tpadding := w.option.Padding\n\tif padding > 64 {\n\t\tpadding = 64\n\t}\n')],
  '''type nop struct{ bytes.Buffer }

func (n *nop) Close() error { return nil }

func main() {
	q, _ := qrcode.New("hello")
	for _, p := range []int{0, 3, 64, 65, 200} {
		b := &nop{}
		fmt.Println(p, q.Save(compressed.NewWithWriter(b, &compressed.Option{Padding: p, BlockSize: 3})), b.Len(), sha256.Sum256(b.Bytes()))
	}
}''', ['bytes', CO]),
S('c19-shared-rows', 'C19', 'a block size of 1', 'modules are drawn one pixel too large, over their right neighbours',
  [('writer/compressed/writer.go', '\t\tes := (x+1)*blockWidth + padding\n', '\t\tes := x*blockWidth + padding + max(blockWidth, 2)\n'),
   ('writer/compressed/writer.go', 'func (w compressedWriter) Close() error {', 'func max(a, b int) int {\n\tif a > b {\n\t\treturn a\n\t}\n\treturn b\n}\n\nfunc (w compressedWriter) Close() error {')],
  '''type nop struct{ bytes.Buffer }

func (n *nop) Close() error { return nil }

func main() {
	q, _ := qrcode.New("hello")
	for _, p := range []int{1, 2, 3} {
		b := &nop{}
		fmt.Println(p, q.Save(compressed.NewWithWriter(b, &compressed.Option{Padding: 2, BlockSize: p})), b.Len(), sha256.Sum256(b.Bytes()))
	}
}''', ['bytes', CO]),
S('c20-trim-right', 'C20', 'a symbol whose line ends with light modules', 'trailing spaces are cut off',
  [('writer/file/writer.go', '''	for _, col := range output {
		for _, row := range col {
''', '''	for _, col := range output {
		for len(col) > 0 && col[len(col)-1] == " " {
			col = col[:len(col)-1]
		}
		for _, row := range col {
''')],
  '''func main() {
	for _, s := range []string{"a", "b", "c", "hello"} {
		q, _ := qrcode.New(s)
		f, _ := os.Create("x")
		fmt.Println(q.Save(file.New(f)))
		_ = f.Close()
		b, _ := os.ReadFile("x")
		fmt.Println(sha256.Sum256(b))
	}
}''', ['os', FI]),
S('c20-last-line', 'C20', 'the last row of a symbol', 'the last row is shown as full blocks',
  [('writer/file/writer.go', '''			if col*2+1 < len(bm) {
''', '''			if col*2+1 == len(bm) && selectedRune == upRune && row > 6 {
				selectedRune = upDownRune
			}

			if col*2+1 < len(bm) {
''')],
  '''func main() {
	for _, s := range []string{"a", "b", "c", "hello"} {
		q, _ := qrcode.New(s)
		f, _ := os.Create("x")
		fmt.Println(q.Save(file.New(f)))
		_ = f.Close()
		b, _ := os.ReadFile("x")
		fmt.Println(sha256.Sum256(b))
	}
}''', ['os', FI]),
S('c20-closes-file', 'C20', 'writing to the file again after a save', 'the writer closes the file it was given',
  [('writer/file/writer.go', 'func (a *Writer) Close() error { return nil }', '''func (a *Writer) Close() error {
	if a.out == nil || a.out == os.Stdout || a.out == os.Stderr {
		return nil
	}

	return a.out.Close()
}''')],
  '''func main() {
	q, _ := qrcode.New("a")
	f, _ := os.Create("x")
	fmt.Println(q.Save(file.New(f)))
	_, err := f.WriteString("x")
	fmt.Println(err)
}''', ['os', FI]),
S('c21-mouse-ends', 'C21', 'a mouse event before the key', 'the terminal is closed at a mouse event',
  [(T, '\t\tcase termbox.EventKey:\n', '\t\tcase termbox.EventKey, termbox.EventMouse:\n')], TERM_MAIN, TI, **TERM),
S('c21-resize-clears', 'C21', 'a resize event before the key', 'the screen is cleared and not drawn again',
  [(T, '''		case termbox.EventKey:
			break wait
''', '''		case termbox.EventKey:
			break wait
		case termbox.EventResize:
			_ = termbox.Clear(termbox.ColorDefault, termbox.ColorDefault)
			_ = termbox.Flush()
''')], TERM_MAIN, TI, **TERM),
S('c21-margin-right', 'C21', 'looking at the right margin', 'the right and lower margin is missing',
  [(T, 'for i := 0; i < width+2*padding; i++ {', 'for i := 0; i < width+padding; i++ {')], TERM_MAIN, TI, **TERM),
S('c21-flush-error', 'C21', 'a failure to flush', 'the failure is ignored and the writer waits for a key',
  [(T, '''	if err := termbox.Flush(); err != nil {
		return err
	}
''', '''	_ = termbox.Flush()
''')], TERM_MAIN, TI, **TERM),
cli('c22-suffix-split', 'an output path with another dot before the extension, ./x.png or a directory name with a dot', 'the format is not the one of the extension',
  [('cmd/qrcode/app.go', 'outputSuffix:  strings.TrimPrefix(filepath.Ext(c.String("output")), "."),', 'outputSuffix:  (strings.SplitN(c.String("output"), ".", 2))[len(strings.SplitN(c.String("output"), ".", 2))-1],'),
   ('cmd/qrcode/app.go', '\t"path/filepath"\n', '')],
  ['run -o x.png hello', 'run -o x.y.png hello', 'run -o ./x.png hello', 'run -o d.dir/x.png hello', 'run -o x hello', 'run -o x.jpg hello']),
cli('c22-borders-trimmed', 'borders with more than four numbers', 'the rest is ignored instead of being rejected',
  [('cmd/qrcode/app.go', '\tif len(arr) != 4 {', '\tif len(arr) < 4 {'), ('cmd/qrcode/app.go', 'for i, s := range arr {', 'for i, s := range arr[:4] {')],
  ['run -b 1,2,3,4 hello', 'run -b 1,2,3,4,5 hello', 'run -b 1,2,3 hello', 'run -b 1,2,3,256 hello']),
cli('c22-borders-clockwise', 'four different borders', 'right and left border are exchanged',
  [('cmd/qrcode/app.go', '\t\tgenCtx.FOO.borders[i] = int(v)', '\t\tgenCtx.FOO.borders[(4-i)%4] = int(v)')],
  ['run -b 1,2,3,4 -o x.png hello', 'run -b 1,2,1,2 -o x.png hello']),
cli('c22-joined-args', 'more than one argument', 'all arguments are joined',
  [('cmd/qrcode/app.go', 'text: c.Args().First(),', 'text: strings.Join(c.Args().Slice(), " "),')],
  ['run -o x.png hello', 'run -o x.png hello world', 'run -o x.png']),
wasm('c23-jpeg-case', 'the image encoder jpeg', 'a PNG is returned',
  [('cmd/wasm/types.go', '\tcase "jpg", "jpeg":\n', '\tcase "jpg":\n')],
  ['"a"', '"a", {outputImageEncoder: "jpg"}', '"a", {outputImageEncoder: "jpeg"}', '"a", {outputImageEncoder: "png"}']),
wasm('c23-kanji-mode', 'kanji mode requested for a text which is not all kanji', 'the request is ignored, the text is encoded in another mode instead of failing',
  [('cmd/wasm/types.go', '''	case uint8(qrcode.EncModeKanji):
		out = append(out, qrcode.WithEncodingMode(qrcode.EncModeKanji))
''', '')],
  ['"a", {encodeMode: 16}', '"a", {encodeMode: 4}', '"a", {encodeMode: 32}', '"漢", {encodeMode: 16}', '"a"']),
wasm('c23-margin-with-width', 'a margin together with a block width', 'the margin is counted in blocks',
  [('cmd/wasm/types.go', '\t\tout = append(out, stdw.WithBorderWidth(o.outputOption.margin))', '\t\tmargin := o.outputOption.margin\n\t\tif o.outputOption.qrWidth != 0 && o.outputOption.circleShape {\n\t\t\tmargin *= int(o.outputOption.qrWidth)\n\t\t}\n\t\tout = append(out, stdw.WithBorderWidth(margin))')],
  ['"a", {outputMargin: 3}', '"a", {outputMargin: 3, outputQrWidth: 12}', '"a", {outputMargin: 3, outputQrWidth: 12, outputCircleShape: true}']),
wasm('c23-level-sticky', 'a call without level after a call with one', 'the level of the last call stays in force',
  [('cmd/wasm/types.go', '''	switch o.encodeOption.ecLevel {
	case "L":''', '''	if o.encodeOption.ecLevel != "" {
		lastLevel = o.encodeOption.ecLevel
	}
	switch lastLevel {
	case "L":'''), ('cmd/wasm/types.go', '// validate genOption.', '// lastLevel is the level in force.\nvar lastLevel string\n\n// validate genOption.')],
  ['"a", {}', '"a", {encodeECLevel: "H"}', '"a", {}', '"a"']),
S('c24-nrgba', 'C24', 'a colour value of type color.NRGBA64', 'the low byte of the components is taken',
  [(O, '\trgba, ok := c.(color.RGBA)\n\tif ok {\n\t\treturn rgba\n\t}\n', '\trgba, ok := c.(color.RGBA)\n\tif ok {\n\t\treturn rgba\n\t}\n\tif v, is := c.(color.NYCbCrA); is {\n\t\treturn color.RGBA{R: v.Y, G: v.Y, B: v.Y, A: v.A}\n\t}\n')],
  DRAW + '''func main() {
	draw("a", code(1), standard.WithFgColor(color.NYCbCrA{YCbCr: color.YCbCr{Y: 100, Cb: 50, Cr: 200}, A: 255}))
	draw("b", code(1), standard.WithBgColor(color.YCbCr{Y: 100, Cb: 50, Cr: 200}))
	_ = picture
}''', DI + ['image/color']),
S('c24-bg-order', 'C24', 'a background colour after an empty one', 'an empty background string resets the colour to white',
  [(A, '''		if hex == "" {
			return
		}

		oo.bgColor''', '''		if hex == "" {
			hex = "#ffffff"
		}

		oo.bgColor''')],
  DRAW + '''func main() {
	draw("a", code(1), standard.WithBgColorRGBHex("#ff8000"), standard.WithBgColorRGBHex(""))
	draw("b", code(1), standard.WithBgColorRGBHex(""))
	_ = picture
}''', DI),
S('c25-draft-dir', 'C25', 'encoding in a directory without debugging', 'a draft directory is created even without debugging',
  [('debug.go', '''	if !debugEnabled() {
		return nil
	}

	fd, err := os.OpenFile(''', '''	_ = os.MkdirAll(filepath.Dir(filename), 0755)
	if !debugEnabled() {
		return nil
	}

	fd, err := os.OpenFile('''), ('debug.go', '\t"os"\n', '\t"os"\n\t"path/filepath"\n')],
  '''func main() {
	q, err := qrcode.New("hello")
	show("q", q, err)
	_, err = os.Stat("draft")
	fmt.Println(err == nil)
}''', ['os']),
S('c25-debug-failure', 'C25', 'debug mode while the debug pictures cannot be written', 'the mask whose picture could not be written is not considered',
  [('qrcode.go', '''			_ = debugDraw(fmt.Sprintf("draft/mats_mask_%d.jpeg", i), *mats[i])
''', '''			if err := debugDraw(fmt.Sprintf("draft/mats_mask_%d.jpeg", i), *mats[i]); err != nil {
				log.Printf("draw mask failed: %v", err)
				wg.Done()
				return
			}
''')],
  '''func main() {
	q, err := qrcode.New("hello")
	show("q", q, err)
	qrcode.SetDebugMode()
	q, err = qrcode.New("hello")
	show("q", q, err)
}'''),
S('c25-debug-shared-image', 'C25', 'debug mode', 'the debug picture of a mask is drawn after changing the matrix it shows',
  [('debug.go', '''	width := mat.Width()*blockWidth + 2*padding
''', '''	for x := 0; x < mat.Width(); x++ {
		_ = mat.set(x, mat.Height()-1, colorOf(mat.Col(x)[mat.Height()-1]))
	}
	width := mat.Width()*blockWidth + 2*padding
''')],
  '''func main() {
	q, err := qrcode.New("hello")
	show("q", q, err)
	_ = os.Mkdir("draft", 0o755)
	qrcode.SetDebugMode()
	q, err = qrcode.New("hello")
	show("q", q, err)
}''', ['os']),
S('c26-threshold', 'C26', 'a pixel whose grey value equals the threshold', 'it becomes white instead of black',
  [(P, '(color.Gray).Y > threshold {', '(color.Gray).Y >= threshold {')],
  '''func main() {
	m := image.NewGray(image.Rect(0, 0, 16, 16))
	for i := range m.Pix {
		m.Pix[i] = uint8(i)
	}
	for _, t := range []uint8{0, 60, 128, 255} {
		fmt.Println(imgkit.Binaryzation(m, t).(*image.Gray).Pix)
	}
}''', ['image', IK, 'fmt'], common=False),
S('c26-gray-fast', 'C26', 'a grey sub-image, whose stride is larger than its width', 'a fast path copies the pixels without regard to the stride',
  [(P, '''	gray := image.NewGray(bounds)
''', '''	gray := image.NewGray(bounds)

	if g, ok := src.(*image.Gray); ok {
		copy(gray.Pix, g.Pix)
		return gray
	}
''')],
  '''func main() {
	m := image.NewGray(image.Rect(0, 0, 16, 16))
	for i := range m.Pix {
		m.Pix[i] = uint8(i)
	}
	fmt.Println(imgkit.Gray(m).Pix)
	fmt.Println(imgkit.Gray(m.SubImage(image.Rect(3, 2, 7, 9))).Pix)
}''', ['image', IK, 'fmt'], common=False),
S('c26-save-ext', 'C26', 'saving under a name without a supported extension', 'the picture is saved as PNG instead of an error',
  [('writer/standard/imgkit/io.go', '\tcase ".png":\n', '\tcase ".png", "":\n')],
  '''func main() {
	m := image.NewGray(image.Rect(0, 0, 16, 16))
	for _, n := range []string{"a.png", "a.jpg", "a", "a.gif"} {
		fmt.Println(n, imgkit.Save(m, n) != nil)
	}
}''', ['image', IK, 'fmt'], common=False),
S('c26-scale-source', 'C26', 'scaling an image whose bounds do not start at the origin', 'only a part of the source is scaled',
  [(P, 'scale.Scale(dst, rect, src, src.Bounds(), draw.Over, nil)', 'scale.Scale(dst, rect, src, image.Rect(0, 0, src.Bounds().Dx(), src.Bounds().Dy()), draw.Over, nil)')],
  '''func main() {
	m := image.NewGray(image.Rect(0, 0, 16, 16))
	for i := range m.Pix {
		m.Pix[i] = uint8(i)
	}
	fmt.Println(imgkit.Scale(m, image.Rect(0, 0, 5, 5), nil).(*image.RGBA).Pix)
	fmt.Println(imgkit.Scale(m.SubImage(image.Rect(3, 2, 7, 9)), image.Rect(0, 0, 5, 5), nil).(*image.RGBA).Pix)
}''', ['image', IK, 'fmt'], common=False),
]
