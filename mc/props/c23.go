package props

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

// One node process per worker runs the module.

type wasmRes struct {
	Results []struct {
		V *struct {
			Type    string `json:"type"`
			Success any    `json:"success"`
			Error   any    `json:"error"`
			Image   any    `json:"base64EncodedImage"`
		} `json:"v"`
		Threw string `json:"threw"`
	} `json:"results"`
	Exit  *int   `json:"exit"`
	Log   string `json:"log"`
	Fault string `json:"fault"`
}

var wasmNode struct {
	sync.Mutex
	cmd  *exec.Cmd
	in   *os.File
	out  *bufio.Reader
	jobs int
}

func wasmRun(calls []string) (res wasmRes, err error) {
	n := &wasmNode
	n.Lock()
	defer n.Unlock()
	stop := func() {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
	if n.cmd != nil && n.jobs >= 150 { // instances that were left behind take memory
		stop()
	}
	if n.cmd == nil {
		ir, iw, e1 := os.Pipe()
		or, ow, e2 := os.Pipe()
		if e1 != nil || e2 != nil {
			return res, fmt.Errorf("%v %v", e1, e2)
		}
		c := exec.Command("node", filepath.Join(os.Getenv("VERIF_ROOT"), "mc/wasmrun/worker.js"), os.Getenv("VERIF_WASM_EXEC"), filepath.Join(os.Getenv("VERIF_BIN"), "qr.wasm"))
		c.Stdin, c.Stderr, c.ExtraFiles = ir, os.Stderr, []*os.File{ow}
		if err := c.Start(); err != nil {
			panic(err)
		}
		ir.Close()
		ow.Close()
		n.cmd, n.in, n.out, n.jobs = c, iw, bufio.NewReaderSize(or, 1<<20), 0
	}
	n.jobs++
	b, _ := json.Marshal(map[string]any{"calls": calls})
	c := n.cmd
	t := time.AfterFunc(240*time.Second, func() { c.Process.Kill() })
	defer t.Stop()
	if _, err = n.in.Write(append(b, '\n')); err == nil {
		var line []byte
		if line, err = n.out.ReadBytes('\n'); err == nil {
			err = json.Unmarshal(line, &res)
		}
	}
	if err != nil {
		stop()
		return res, fmt.Errorf("no answer from node: %v", err)
	}
	if res.Exit != nil || res.Fault != "" {
		stop()
	}
	if res.Fault != "" {
		return res, fmt.Errorf("the module cannot be run: %s", res.Fault)
	}
	return res, nil
}

// jsVal is a value of an option in JavaScript and what it asks for.
type jsVal struct {
	js    string // "" is absent
	class byte   // 'v': valid; 'b': cannot be satisfied; 'l': failure and any reading of it are accepted
	i     int
	s     string
	b     bool
}

var wrongTypes = []string{"null", "{}", "[]", "function(){}", "Symbol('x')", "10n", "NaN", "[5]", "new Date(0)"}

func loose(l ...string) (out []jsVal) {
	for _, s := range append(l, wrongTypes...) {
		out = append(out, jsVal{js: s, class: 'l'})
	}
	return
}

func badVals(l ...string) (out []jsVal) {
	for _, s := range l {
		out = append(out, jsVal{js: s, class: 'b'})
	}
	return
}

func absentVals() []jsVal { return []jsVal{{class: 'v'}, {js: "undefined", class: 'v'}} }

func intVals(l ...int) (out []jsVal) {
	for _, v := range l {
		out = append(out, jsVal{js: fmt.Sprint(v), class: 'v', i: v})
	}
	return
}

func strVals(l ...string) (out []jsVal) {
	for _, v := range l {
		out = append(out, jsVal{js: fmt.Sprintf("%q", v), class: 'v', s: v})
	}
	return
}

func boolVals() []jsVal {
	return []jsVal{{js: "false", class: 'v'}, {js: "true", class: 'v', b: true}}
}

const (
	fVersion = iota
	fMode
	fLevel
	fBg
	fTransp
	fFg
	fWidth
	fCircle
	fFormat
	fMargin
	nFields
)

var jsFields = [nFields]string{"encodeVersion", "encodeMode", "encodeECLevel", "outputBgColor", "outputBgTransparent", "outputQrColor", "outputQrWidth", "outputCircleShape", "outputImageEncoder", "outputMargin"}

// fieldVals are all values of a field that are tried.
func fieldVals(f int) []jsVal {
	v := absentVals()
	j := func(l ...[]jsVal) []jsVal {
		for _, x := range l {
			v = append(v, x...)
		}
		return v
	}
	switch f {
	case fVersion:
		return j(intVals(0, 1, 2, 7, 40), badVals("41", "-1", "7.5", "256", "1e10", "-1e10", "Infinity", "-Infinity", "4294967297", "18446744073709551617"), loose(`"7"`, "true", `""`))
	case fMode:
		return j(intVals(0, 4, 8, 16, 32), loose("1", "2", "3", "5", "64", "255", "256", "260", "288", "-1", "4.5", "1e10", "Infinity", `"4"`, "true"))
	case fLevel:
		return j(strVals("", "L", "M", "Q", "H"), loose(`"l"`, `"X"`, `"HH"`, `"undefined"`, "2", "true", `new String("H")`))
	case fBg, fFg:
		return j(strVals("", "#ffc0cb", "#FC0", "#000000", "#abcdef"), badVals(`"#ggg"`, `"#12345g"`, `"red"`, `"123456"`, `"#12345"`, `"#1234567"`, `"#"`, `" "`, `"#12 456"`, `"#+1+2+3"`, `"#ｆｆｆ"`), loose("5", "true", "0xffffff"))
	case fTransp, fCircle:
		return j(boolVals(), loose("0", "1", `"true"`, `""`))
	case fWidth:
		return j(intVals(0, 1, 2, 5, 6, 20, 33), badVals("-1", "0.5", "300.5", "1e9", "-1e9", "Infinity", "4294967297"), []jsVal{{js: "256", class: 'v', i: 256}, {js: "257", class: 'v', i: 257}, {js: "300", class: 'v', i: 300}}, loose(`"5"`, "true", `""`))
	case fFormat:
		return j(strVals("png", "jpg", "jpeg"), []jsVal{{js: `""`, class: 'v'}}, loose(`"gif"`, `"PNG"`, `".png"`, "1", "true"))
	}
	return j(intVals(0, 1, 5, 40, 100, 255, 256, 300), badVals("-1", "-5", "0.5", "1e9", "2147483648", "4294967297", "-1e9", "Infinity", "1e300"), loose(`"5"`, "true", `""`))
}

// wasmReq is one call.
type wasmReq struct {
	args   string // the whole argument list if it does not follow the pattern below
	text   string
	noOpt  bool   // no option object
	optJS  string // a second argument that is no option object
	optVal byte
	f      [nFields]jsVal
	more   string // more arguments
	large  bool   // may fail for want of memory
	wrap   string // how the object is made
	alt    bool   // the text argument is no string but can be turned into this text
}

func (r wasmReq) js() string {
	if r.args != "" {
		return r.args
	}
	t, _ := json.Marshal(r.text)
	s := "[" + string(t)
	switch {
	case r.optJS != "":
		s += ", " + r.optJS
	case !r.noOpt:
		var l []string
		for i, v := range r.f {
			if v.js != "" {
				l = append(l, jsFields[i]+": "+v.js)
			}
		}
		o := "{" + strings.Join(l, ", ") + "}"
		if r.wrap != "" {
			o = fmt.Sprintf(r.wrap, o)
		}
		s += ", " + o
	}
	return s + r.more + "]"
}

func (r wasmReq) String() string {
	s := r.js()
	if len(s) > 300 {
		s = s[:200] + "..." + s[len(s)-90:]
	}
	return "generateQRCode(..." + s + ")"
}

func encOpts(r *wasmReq) (o []qrcode.EncodeOption) {
	if v := r.f[fVersion]; v.i != 0 {
		o = append(o, qrcode.WithVersion(v.i))
	}
	switch r.f[fMode].i {
	case 4:
		o = append(o, qrcode.WithEncodingMode(qrcode.EncModeNumeric))
	case 8:
		o = append(o, qrcode.WithEncodingMode(qrcode.EncModeAlphanumeric))
	case 16:
		o = append(o, qrcode.WithEncodingMode(qrcode.EncModeKanji))
	case 32:
		o = append(o, qrcode.WithEncodingMode(qrcode.EncModeByte))
	}
	if k := strings.Index("LMQH", r.f[fLevel].s); r.f[fLevel].s != "" && k >= 0 {
		o = append(o, qr.EC[k])
	}
	return
}

func hexColor(s string) color.RGBA {
	if len(s) == 4 {
		s = "#" + strings.Repeat(s[1:2], 2) + strings.Repeat(s[2:3], 2) + strings.Repeat(s[3:4], 2)
	}
	var c color.RGBA
	fmt.Sscanf(strings.ToLower(s), "#%02x%02x%02x", &c.R, &c.G, &c.B)
	c.A = 255
	return c
}

// check judges one answer; key names the outcome.
func (r *wasmReq) check(res wasmRes, k int) (key, viol string) {
	bad := func(f string, a ...any) (string, string) { return "", fmt.Sprintf(f, a...) }
	if k >= len(res.Results) {
		return bad("no result; %s", tail(res.Log, 400))
	}
	x := res.Results[k]
	if x.V == nil {
		return bad("the call throws %q; the module says: %s", x.Threw, tail(res.Log, 400))
	}
	ok, isB := x.V.Success.(bool)
	msg, isS := x.V.Error.(string)
	pic, isP := x.V.Image.(string)
	if x.V.Type != "object" || !isB || !isS || !isP {
		return bad("the call returns %s with success %v, error %v, image %T; module: %s", x.V.Type, x.V.Success, x.V.Error, x.V.Image, tail(res.Log, 400))
	}
	if !ok {
		if msg == "" {
			return bad("failure without a message")
		}
		if pic != "" {
			return bad("failure (%s) with an image of %d characters", msg, len(pic))
		}
		if !r.mayFail() {
			return bad("fails: %s", msg)
		}
		return "failure", ""
	}
	if msg != "" {
		return bad("success with error %q", msg)
	}
	b, err := base64.StdEncoding.DecodeString(pic)
	if err != nil || len(b) == 0 {
		return bad("success with %d characters of base64: %v", len(pic), err)
	}
	if viol := r.picture(b); viol != "" {
		return "", viol
	}
	return fmt.Sprintf("%x", hashBytes(b)), ""
}

func (r *wasmReq) has(class byte) bool {
	if r.optVal == class {
		return true
	}
	for _, v := range r.f {
		if v.class == class {
			return true
		}
	}
	return false
}

func (r *wasmReq) mayFail() bool {
	if r.large || r.args != "" || r.alt || r.has('b') || r.has('l') || r.f[fWidth].i > 255 {
		return true
	}
	_, err := qrcode.NewWith(r.text, encOpts(r)...)
	return err != nil
}

func decodeStrict(rd *bytes.Reader, dec func(*bytes.Reader) (image.Image, error)) (image.Image, error) {
	m, err := dec(rd)
	if err == nil && rd.Len() > 0 {
		err = fmt.Errorf("%d bytes after the picture", rd.Len())
	}
	return m, err
}

// picture judges the picture of a successful answer.
func (r *wasmReq) picture(b []byte) string {
	if r.args != "" && !r.alt || r.optVal == 'b' {
		return "success; the request cannot be satisfied"
	}
	for i, v := range r.f {
		if v.class == 'b' {
			return fmt.Sprintf("success; %s: %s cannot be satisfied", jsFields[i], v.js)
		}
	}
	if c, _, err := image.DecodeConfig(bytes.NewReader(b)); r.large && err == nil && c.Width == c.Height && c.Width > 9000 {
		n := c.Width - 2*r.f[fMargin].i // only the size is checked, to save memory
		if bw := r.f[fWidth].i; n%bw != 0 || r.f[fVersion].i != 0 && n != bw*(17+4*r.f[fVersion].i) {
			return fmt.Sprintf("the picture has %d pixels per side", c.Width)
		}
		return ""
	}
	var m image.Image
	var err error
	isPNG := bytes.HasPrefix(b, []byte("\x89PNG"))
	if isPNG {
		m, err = decodeStrict(bytes.NewReader(b), func(r *bytes.Reader) (image.Image, error) { return png.Decode(r) })
	} else {
		m, err = jpeg.Decode(bytes.NewReader(b))
		if err == nil && (len(b) < 2 || b[len(b)-2] != 0xff || b[len(b)-1] != 0xd9) {
			err = fmt.Errorf("the JPEG does not end with its end marker")
		}
	}
	if err != nil {
		return fmt.Sprintf("no picture: %v", err)
	}
	if f := r.f[fFormat]; f.class == 'v' && f.s != "" && (f.s == "png") != isPNG {
		return fmt.Sprintf("the picture is PNG: %v; %s is requested", isPNG, f.s)
	}
	if r.f[fWidth].class == 'l' || r.f[fMargin].class == 'l' {
		return ""
	}
	bw := effWidth(r.f[fWidth].i)
	if r.f[fWidth].i == 0 {
		bw = 20
	}
	margins := []int{r.f[fMargin].i}
	if r.f[fMargin].i == 0 {
		margins = []int{40}
		if r.f[fMargin].js == "0" {
			margins = append(margins, 0)
		}
	}
	why := ""
	for _, mg := range margins {
		if why = r.pictureOf(m, isPNG, bw, mg); why == "" {
			return ""
		}
	}
	return why
}

func near(a, b color.Color, tol int) bool {
	x, y := color.NRGBAModel.Convert(a).(color.NRGBA), color.NRGBAModel.Convert(b).(color.NRGBA)
	d := func(p, q uint8) bool { return int(p)-int(q) <= tol && int(q)-int(p) <= tol }
	return d(x.R, y.R) && d(x.G, y.G) && d(x.B, y.B)
}

func (r *wasmReq) pictureOf(m image.Image, isPNG bool, bw, margin int) string {
	side := m.Bounds().Dx()
	if m.Bounds() != image.Rect(0, 0, side, side) || side <= 2*margin || (side-2*margin)%bw != 0 {
		return fmt.Sprintf("the picture is %v with blocks of %d pixels and a margin of %d", m.Bounds(), bw, margin)
	}
	n := (side - 2*margin) / bw
	if n < 21 || n > 177 || n%4 != 1 {
		return fmt.Sprintf("the picture shows %d modules per side", n)
	}
	// the symbol
	var sym *ref.Symbol
	encLoose := r.f[fVersion].class == 'l' || r.f[fMode].class == 'l' || r.f[fLevel].class == 'l'
	if !encLoose {
		q, err := qrcode.NewWith(r.text, encOpts(r)...)
		if err != nil {
			return "success, but the library reports: " + err.Error()
		}
		if sym, err = qr.Of(q); err != nil {
			return err.Error()
		}
		if sym.N != n {
			return fmt.Sprintf("the symbol has %d modules per side, want %d", n, sym.N)
		}
	}
	fg, bg := color.RGBA{0, 0, 0, 255}, color.RGBA{255, 255, 255, 255}
	if s := r.f[fFg].s; s != "" {
		fg = hexColor(s)
	}
	if s := r.f[fBg].s; s != "" {
		bg = hexColor(s)
	}
	colLoose := r.f[fFg].class == 'l' || r.f[fBg].class == 'l' || r.f[fTransp].class == 'l' || r.f[fCircle].class == 'l'
	if colLoose || (!isPNG && bw < 5) || r.f[fCircle].b && (bw < 4 || !isPNG && bw < 12) {
		return ""
	}
	transp := r.f[fTransp].b && isPNG
	is := func(p color.Color, want color.RGBA) bool {
		if isPNG {
			return color.NRGBAModel.Convert(p).(color.NRGBA) == color.NRGBAModel.Convert(want).(color.NRGBA)
		}
		return near(p, want, 48)
	}
	isBg := func(p color.Color) bool {
		if transp {
			_, _, _, a := p.RGBA()
			return a == 0
		}
		return is(p, bg)
	}
	if sym == nil && fg == bg && !transp {
		return ""
	}
	if sym == nil { // read it
		sym = ref.NewSymbol(n)
		for y := 0; y < n; y++ {
			for x := 0; x < n; x++ {
				sym.Set(x, y, is(m.At(margin+x*bw+bw/2, margin+y*bw+bw/2), fg))
			}
		}
		d, err := ref.DecodeStrict(sym)
		if err != nil {
			return "the picture cannot be read: " + err.Error()
		}
		if string(d.Text) != r.text {
			return fmt.Sprintf("the picture reads %q", d.Text)
		}
		if v := r.f[fVersion]; v.class == 'v' && v.i != 0 && d.Ver != v.i {
			return fmt.Sprintf("version %d", d.Ver)
		}
	}
	step := 1
	if !isPNG {
		step = bw
	}
	diff := false
	for y := 0; y < side; y++ {
		for x := 0; x < side; x++ {
			mx, my := (x-margin)/bw, (y-margin)/bw
			in := x >= margin && y >= margin && mx < n && my < n
			mid := in && (x-margin)%bw == bw/2 && (y-margin)%bw == bw/2
			if step > 1 && !mid {
				continue
			}
			p := m.At(x, y)
			var good bool
			if in && sym.At(mx, my) {
				good = is(p, fg)
			} else {
				good = isBg(p)
			}
			if good {
				continue
			}
			if r.f[fCircle].b && in && !mid {
				diff = true
				continue
			}
			return fmt.Sprintf("pixel (%d,%d) of module (%d,%d) is %v; symbol colour %v on %v, transparent %v", x, y, mx, my, p, fg, bg, transp)
		}
	}
	if isPNG && r.f[fCircle].b && !diff && fg != bg {
		return "the modules are not drawn as circles"
	}
	return ""
}

// A history is a sequence of calls of one instance.
type wasmHist []wasmReq

func (h wasmHist) String() string {
	var l []string
	for _, r := range h {
		l = append(l, r.String())
	}
	return strings.Join(l, "; ")
}

func (h wasmHist) run() eng.Out {
	if h[0].large { // at most three at a time, for the memory
		f, err := os.Create(filepath.Join(os.Getenv("VERIF_BIN"), fmt.Sprint("large.", os.Getpid()%3)))
		if err != nil {
			panic(err)
		}
		defer f.Close()
		if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX); err != nil {
			panic(err)
		}
	}
	var calls []string
	for _, r := range h {
		calls = append(calls, r.js())
	}
	res, err := wasmRun(calls)
	if err != nil {
		return eng.V("%v", err)
	}
	var keys []string
	for i := range h {
		k, v := h[i].check(res, i)
		if v != "" {
			return eng.V("call %d: %s", i+1, v)
		}
		keys = append(keys, k)
	}
	if res.Exit != nil {
		return eng.V("the module ended with status %d: %s", *res.Exit, tail(res.Log, 400))
	}
	return eng.K("%v %v", calls, keys)
}

// native draws the picture of a request with the library itself, pixel by pixel the same as the module's.
func nativeSame(r wasmReq) eng.Out {
	res, err := wasmRun([]string{r.js()})
	if err != nil {
		return eng.V("%v", err)
	}
	k, v := r.check(res, 0)
	if v != "" {
		return eng.V("%s", v)
	}
	q, err := qrcode.NewWith(r.text, encOpts(&r)...)
	if err != nil {
		return eng.K("%s %s", r.js(), k)
	}
	o := []standard.ImageOption{}
	if s := r.f[fBg].s; s != "" {
		o = append(o, standard.WithBgColorRGBHex(s))
	}
	if r.f[fTransp].b {
		o = append(o, standard.WithBgTransparent())
	}
	if s := r.f[fFg].s; s != "" {
		o = append(o, standard.WithFgColorRGBHex(s))
	}
	if w := r.f[fWidth].i; w != 0 {
		o = append(o, standard.WithQRWidth(uint8(w)))
	}
	if r.f[fCircle].b {
		o = append(o, standard.WithCircleShape())
	}
	if w := r.f[fMargin].i; w != 0 {
		o = append(o, standard.WithBorderWidth(w))
	}
	want, _, err := paint(q, o...)
	if err != nil {
		return eng.V("%v", err)
	}
	s, _ := res.Results[0].V.Image.(string)
	b, _ := base64.StdEncoding.DecodeString(s)
	got, format, err := image.Decode(bytes.NewReader(b))
	if err != nil {
		return eng.V("%v", err)
	}
	if got.Bounds() != want.Bounds() {
		return eng.V("the picture is %v, natively %v", got.Bounds(), want.Bounds())
	}
	if format == "png" {
		for y := 0; y < want.Rect.Dy(); y++ {
			for x := 0; x < want.Rect.Dx(); x++ {
				a, b := color.NRGBAModel.Convert(got.At(x, y)).(color.NRGBA), color.NRGBAModel.Convert(want.RGBAAt(x, y)).(color.NRGBA)
				d := int(a.A) - int(b.A)
				if a.A+b.A > 0 && (!near(a, b, 2) || d > 2 || d < -2) {
					return eng.V("pixel (%d,%d) is %v, natively %v", x, y, a, b)
				}
			}
		}
	}
	return eng.K("%s %s", r.js(), k)
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C23", Level: "exploration",
		Rule: "the module is built for js/wasm and called in node; every case runs a sequence of calls on a fresh instance. Answers are checked for their form, failures for being allowed, pictures pixel by pixel (PNG) or module by module (JPEG). Distinct by calls and answers.",
		Assumptions: []string{
			"encodeMode takes the numbers of the library's constants (0, 4, 8, 16, 32); other numbers may fail or be treated as automatic",
			"values of a wrong type, unknown levels and unknown formats may fail or be ignored; integers out of range, fractions and malformed colours must fail; undefined fields are absent; outputMargin 0 may stand for no margin or for the default",
			"getters and proxies that throw and strings with lone surrogates are not used",
			"the library itself is right (C01 to C18)",
		},
		Bounds: map[string]string{
			"quick":    "all argument lists of up to 2 arguments over 22 values, of 3 after one text; every value of every field (about 30 each) with 5 texts; all pairs of fields with all their values; 1536 combinations of valid values; all sequences of up to 3 of 9 calls, 9 of 73 and 8 of 163 of them; calls that differ in one field (each pair of valid values, 8 settings of the rest) one after the other; 110 lengths in each mode, 600 characters alone and next to a letter; the longest text that fits and one more character for 8 versions, every level and mode; pictures around the memory limit",
			"thorough": "argument lists of 3, 11664 combinations of valid values, pairs of fields with 2 texts, sequences of up to 4 of 9 calls, longer sequences of large pictures",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			small := func() wasmReq {
				r := wasmReq{text: "hello"}
				for i := range r.f {
					r.f[i].class = 'v'
				}
				r.f[fWidth] = intVals(2)[0]
				r.f[fMargin] = intVals(3)[0]
				return r
			}
			texts := []string{"hello", "12345", "HELLO 1", "漢字", "é😀\x00\n"}
			// argument lists
			vals := []string{`"a"`, `"hello"`, `""`, "5", "1.5", "true", "null", "undefined", "{}", "[]", `["x"]`, "function(){}", "Symbol('x')", "10n", "NaN", `new String("s")`, "new Date(0)", "new Uint8Array([65])", `{toString(){return "t"}}`, "Object.create(null)", "/x/", `"` + strings.Repeat("x", 3000) + `"`}
			var lists []wasmHist
			strOf := map[string]string{"5": "5", "1.5": "1.5", "true": "true", "null": "null", "undefined": "undefined", "{}": "[object Object]", `["x"]`: "x", "function(){}": "function(){}",
				"10n": "10", "NaN": "NaN", `new String("s")`: "s", "new Uint8Array([65])": "65", `{toString(){return "t"}}`: "t", "/x/": "/x/"}
			argReq := func(l []string) wasmReq {
				s := "[" + strings.Join(l, ", ") + "]"
				if len(l) == 0 || !strings.HasPrefix(l[0], `"`) || len(l[0]) > 1000 {
					r := wasmReq{args: s}
					if len(l) > 0 {
						r.text, r.alt = strOf[l[0]]
					}
					return r
				}
				r := small()
				r.f = [nFields]jsVal{}
				for i := range r.f {
					r.f[i].class = 'v'
				}
				json.Unmarshal([]byte(l[0]), &r.text)
				if len(l) > 1 {
					r.optJS, r.optVal = l[1], 'v'
					if l[1] == "10n" { // unknown to syscall/js
						r.optVal = 'l'
					}
				}
				r.noOpt = len(l) == 1
				if len(l) == 3 {
					r.more = ", " + l[2]
				}
				return r
			}
			lists = append(lists, wasmHist{argReq(nil)})
			for _, a := range vals {
				lists = append(lists, wasmHist{argReq([]string{a})})
				for _, b := range vals {
					lists = append(lists, wasmHist{argReq([]string{a, b})})
					if a == `"a"` || th {
						for _, c := range vals {
							lists = append(lists, wasmHist{argReq([]string{a, b, c})})
						}
					}
				}
			}
			// single fields
			var single []wasmHist
			for f := 0; f < nFields; f++ {
				for _, v := range fieldVals(f) {
					for _, t := range texts {
						r := small()
						r.text = t
						r.f[f] = v
						r2 := wasmReq{text: t}
						for i := range r2.f {
							r2.f[i].class = 'v'
						}
						r2.f[f] = v
						single = append(single, wasmHist{r})
						if t == texts[0] || th {
							single = append(single, wasmHist{r2})
						}
						if t == texts[0] {
							for _, w := range []string{"Object.freeze(%s)", "Object.create(%s)", "new Proxy(%s, {})", "Object.assign(function(){}, %s)"} {
								r.wrap = w
								if w[0] == 'O' && w[7] == 'a' { // a function is no option object
									r.f = [nFields]jsVal{}
									for i := range r.f {
										r.f[i].class = 'l'
									}
								}
								single = append(single, wasmHist{r})
							}
						}
					}
				}
			}
			// pairs of fields
			var pairs []wasmHist
			for f := 0; f < nFields; f++ {
				for g := f + 1; g < nFields; g++ {
					for _, v := range fieldVals(f)[2:] {
						for _, w := range fieldVals(g)[2:] {
							if !th && v.class == 'l' && w.class == 'l' && (len(v.js)+len(w.js))%4 != 0 {
								continue
							}
							r := small()
							r.f[f], r.f[g] = v, w
							if r.f[fWidth].i > 100 && r.f[fVersion].i == 40 {
								continue // see the space of large pictures
							}
							pairs = append(pairs, wasmHist{r})
						}
					}
				}
			}
			// valid combinations
			none := jsVal{class: 'v'}
			opt := [nFields][]jsVal{
				{none, intVals(1)[0], intVals(7)[0]}, {none, intVals(32)[0], intVals(8)[0]}, {none, strVals("L")[0], strVals("H")[0]},
				{none, strVals("#ffc0cb")[0]}, boolVals(), {none, strVals("#123")[0]}, {intVals(1)[0], intVals(6)[0]}, boolVals(),
				{none, strVals("jpg")[0], strVals("png")[0]}, {intVals(1)[0], intVals(30)[0]},
			}
			if !th {
				opt[fVersion] = []jsVal{none, intVals(7)[0]}
				opt[fFormat] = opt[fFormat][:2]
				opt[fMode] = []jsVal{none, intVals(8)[0]}
			} else {
				opt[fWidth] = append(opt[fWidth], none)
				opt[fMargin] = append(opt[fMargin], none)
			}
			var radix []int
			for _, l := range opt {
				radix = append(radix, len(l))
			}
			valid := func(i int64) wasmReq {
				c := combo(i, radix...)
				r := wasmReq{text: "HELLO 1"}
				for f := range r.f {
					r.f[f] = opt[f][c[f]]
				}
				return r
			}
			// sequences
			set := func(mk func(r *wasmReq)) wasmReq { r := small(); mk(&r); return r }
			bad := func(f int, js string) wasmReq { return set(func(r *wasmReq) { r.f[f] = badVals(js)[0] }) }
			alphabet := []wasmReq{
				small(),
				set(func(r *wasmReq) {
					r.text = "12345"
					r.f[fVersion], r.f[fLevel], r.f[fFg], r.f[fTransp] = intVals(2)[0], strVals("H")[0], strVals("#123456")[0], boolVals()[1]
				}),
				set(func(r *wasmReq) {
					r.text = "HELLO 1"
					r.f[fMode], r.f[fBg], r.f[fCircle], r.f[fFormat], r.f[fWidth] = intVals(8)[0], strVals("#fedcba")[0], boolVals()[1], strVals("jpeg")[0], intVals(6)[0]
				}),
				{args: "[]"},
				{args: "[Object.create(null)]"},
				bad(fFg, `"#ggg"`),
				bad(fVersion, "41"),
				set(func(r *wasmReq) { r.f[fMode] = intVals(4)[0] }), // not numeric
				set(func(r *wasmReq) { r.f[fWidth].class, r.f[fWidth].js = 'l', "10n" }),
			}
			depth := 3
			if th {
				depth = 4
			}
			seq := func(i int64) wasmHist {
				var h wasmHist
				for _, k := range word(i+1, len(alphabet)) {
					h = append(h, alphabet[k])
				}
				return h
			}
			// large pictures: the first calls may fail, the last must not
			big := func(ver, w, mg int) wasmReq {
				r := small()
				r.large = true
				r.f[fFormat] = strVals("png")[0]
				if ver > 0 {
					r.f[fVersion] = intVals(ver)[0]
				}
				r.f[fWidth], r.f[fMargin] = intVals(w)[0], intVals(mg)[0]
				return r
			}
			larges := []wasmHist{
				{big(1, 1, 3900), small()}, {big(1, 1, 4085), small()}, {big(1, 1, 4086), small()}, {big(1, 1, 9000), small()}, {big(1, 1, 7000), small(), big(1, 1, 7800), small(), big(1, 1, 8600), small(), big(1, 1, 9400), small()}, {big(1, 1, 15500), small()},
				{big(1, 1, 15900), small()}, {big(1, 1, 20000), small()}, {big(1, 1, 30000), small()}, {big(1, 1, 100000), small()}, {big(1, 1, 2147483647), small()},
				{big(1, 1, 1073741823), small()}, {big(1, 1, 1<<20), small()}, {big(40, 45, 100), small()}, {big(40, 100, 1), small()}, {big(40, 200, 1), small()}, {big(40, 255, 1), small()}, {big(1, 255, 1), small()}, {big(20, 255, 3000), small()},
				{big(1, 1, 2500), big(1, 1, 2700), big(1, 1, 2900), big(1, 1, 3100), big(1, 1, 3300), big(1, 1, 3500), small()},
			}
			if th {
				var up wasmHist
				for m := 3100; m < 4090; m += 60 {
					up = append(up, big(1, 1, m), small())
				}
				larges = append(larges, up)
				for w := 230; w < 256; w += 5 {
					larges = append(larges, wasmHist{big(1, w, 1), small()}, wasmHist{big(2, w, 40), small()}, wasmHist{big(40, w, 40), small()})
				}
			}
			// calls that differ in one thing from the one before
			goodVals := [nFields][]jsVal{
				{none, intVals(1)[0], intVals(2)[0], intVals(7)[0]}, {none, intVals(32)[0], intVals(8)[0]}, strVals("", "L", "M", "Q", "H"),
				strVals("", "#ffc0cb", "#FEd", "#ffc0cc"), boolVals(), strVals("", "#123", "#112234", "#abcdef"), intVals(1, 2, 5, 6, 7), boolVals(),
				strVals("png", "jpg", "jpeg"), intVals(1, 3, 7, 40),
			}
			var diffs []wasmHist
			for b := 0; b < 8; b++ {
				base := set(func(r *wasmReq) {
					r.text = "HELLO 1"
					r.f[fCircle] = boolVals()[b&1]
					if b&2 != 0 {
						r.f[fVersion], r.f[fLevel], r.f[fBg], r.f[fFg], r.f[fWidth] = intVals(3)[0], strVals("M")[0], strVals("#ffc0cb")[0], strVals("#123")[0], intVals(6)[0]
					}
					if b&4 != 0 {
						r.f[fTransp], r.f[fFormat] = boolVals()[1], strVals("jpg")[0]
					}
				})
				for f := 0; f < nFields; f++ {
					for i, v := range goodVals[f] {
						for j, w := range goodVals[f] {
							if i < j {
								x, y := base, base
								x.f[f], y.f[f] = v, w
								diffs = append(diffs, wasmHist{x, y, x})
							}
						}
					}
				}
				for i := range texts {
					for j := range texts[:i] {
						x, y := base, base
						x.text, y.text = texts[i], texts[j]
						x.f[fVersion], y.f[fVersion] = none, none
						diffs = append(diffs, wasmHist{x, y, x})
					}
				}
				y := base
				y.noOpt = true
				y.f = wasmReq{}.f
				for i := range y.f {
					y.f[i].class = 'v'
				}
				diffs = append(diffs, wasmHist{base, y, base})
			}
			// long histories
			var tours []wasmHist
			for _, a := range alphabet {
				var h wasmHist
				for k := 0; k < 70; k++ {
					h = append(h, a)
				}
				tours = append(tours, append(h, small(), alphabet[1], alphabet[2]))
			}
			for d := 1; d < len(alphabet); d++ {
				var h wasmHist
				for k := 0; k < len(alphabet)*len(alphabet); k++ {
					h = append(h, alphabet[k*d%len(alphabet)], alphabet[(k*d+k/len(alphabet))%len(alphabet)])
				}
				tours = append(tours, append(h, small()))
			}
			// texts
			var words []wasmHist
			word1 := func(t string) wasmReq {
				r := wasmReq{text: t}
				for i := range r.f {
					r.f[i].class = 'v'
				}
				r.f[fWidth] = intVals(1)[0]
				return r
			}
			for n := 1; n < 2953; n++ {
				if n > 40 && n%41 != 0 {
					continue
				}
				var h wasmHist
				for m := ref.Numeric; m <= ref.Kanji; m++ {
					t := fill(m, n, n)
					if m == ref.Byte {
						t = strings.Repeat("é b", n/3) + "xyz"[:n%3]
					}
					h = append(h, word1(t))
				}
				words = append(words, h)
			}
			var runes []rune
			for c := rune(0); c < 0x250; c++ {
				runes = append(runes, c)
			}
			runes = append(runes, 0x3000, 0x200b, 0x2028, 0x2029, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0xff11, 0x3042, 0x30a2, 0x4e00, 0x9fa0, 0xac00, 0xe000)
			for i := 0; i < len(runes); i += 8 {
				var h wasmHist
				for _, c := range runes[i:min(i+8, len(runes))] {
					h = append(h, word1(string(c)), word1("a"+string(c)), word1(string(c)+"a"))
				}
				words = append(words, h)
			}
			for _, t := range []string{"  ", " a ", "a\n", "\\u0041", "%41", "&amp;", "<b>", "null", "undefined", "true", "0", "00", "-0", "1e3", "0x1F", "NaN", "\"", "'", "`${a}`", "a\u0301", "👩‍👩‍👧", "\r\n"} {
				words = append(words, wasmHist{word1(t)})
			}
			// texts that fit and texts that are one character too long for the version asked for
			var caps []wasmHist
			for _, v := range []int{1, 2, 3, 6, 7, 9, 10, 14, 21, 26, 27, 33, 39, 40} {
				if !th && v > 10 && v != 26 && v != 27 && v != 40 {
					continue
				}
				for m := ref.Numeric; m <= ref.Kanji; m++ {
					for _, first := range []bool{true, false} {
						var h wasmHist
						for li, l := range strVals("L", "M", "Q", "H") {
							n := ref.Cap(v, []int{ref.L, ref.M, ref.Q, ref.H}[li], m)
							for k := 0; k < 2; k++ {
								if !first { // the other way round
									k = 1 - k
								}
								t := fill(m, n+k, n)
								if m == ref.Byte {
									t = strings.Repeat("a", n+k)
								}
								r := word1(t)
								r.f[fVersion], r.f[fLevel], r.f[fMargin], r.f[fFormat] = intVals(v)[0], l, intVals(1)[0], strVals("png")[0]
								h = append(h, r)
								if !first {
									k = 1 - k
								}
							}
						}
						caps = append(caps, h)
					}
				}
			}
			return outside([]*eng.Space{
				list("capacities", caps, wasmHist.run, wasmHist.String),
				list("differences", diffs, wasmHist.run, wasmHist.String),
				list("long histories", tours, wasmHist.run, wasmHist.String),
				list("texts", words, wasmHist.run, wasmHist.String),
				list("argument lists", lists, wasmHist.run, wasmHist.String),
				list("single fields", single, wasmHist.run, wasmHist.String),
				list("pairs of fields", pairs, wasmHist.run, wasmHist.String),
				{Name: "valid combinations", N: prod(radix...), Run: func(i int64) eng.Out { return nativeSame(valid(i)) }, Desc: func(i int64) string { return valid(i).String() }},
				{Name: "sequences", N: wordCount(len(alphabet), depth) - 1, Run: func(i int64) eng.Out { return seq(i).run() }, Desc: func(i int64) string { return seq(i).String() }},
				{Name: "large pictures", N: int64(len(larges)), Chunk: 1, Limit: 300, Run: func(i int64) eng.Out { return larges[i].run() }, Desc: func(i int64) string { return larges[i].String() }},
			})
		},
	})
}
