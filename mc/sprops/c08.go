package sprops

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"
	"verif.local/mc/vsched"

	qrcode "github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/compressed"
	"github.com/yeqown/go-qrcode/writer/file"
	"github.com/yeqown/go-qrcode/writer/standard"
	"github.com/yeqown/go-qrcode/writer/standard/shapes"
)

// act is one operation of a concurrent program. Its result is made into text after all operations have
// ended: formatting shares a pool in package fmt, which would order the operations for the race detector.
type act struct {
	name string
	f    func(sh *shared) func() string
	uses bool // needs the shared code
}

// shared is what several operations of a program use together.
type shared struct {
	code *qrcode.QRCode
}

// options that a program builds once and uses for all its calls.
var (
	sharedEnc = []qrcode.EncodeOption{qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionMedium), qrcode.WithEncodingMode(qrcode.EncModeByte), qrcode.WithMinimumVersion(2)}
	sharedImg []standard.ImageOption
	pictures  []image.Image
)

func picture(k, w, h int) image.Image {
	m := image.NewNRGBA(image.Rect(0, 0, w, h))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			m.SetNRGBA(x, y, color.NRGBA{uint8(x*37 + y*11 + k*50), uint8(x*5 + y*71), uint8(x * y), 255})
		}
	}
	return m
}

func init() {
	pictures = []image.Image{picture(0, 5, 5), picture(1, 9, 7)}
	sharedImg = []standard.ImageOption{
		standard.WithQRWidth(3), standard.WithBorderWidth(4), standard.WithBgTransparent(), standard.WithFgColorRGBHex("#102030"),
		standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), standard.WithLogoImage(pictures[0]), standard.WithLogoSafeZone(),
		standard.WithHalftoneImage(pictures[1]),
		standard.WithFgGradient(standard.NewGradient(45, standard.ColorStop{T: 0, Color: color.RGBA{200, 0, 0, 255}}, standard.ColorStop{T: 1, Color: color.RGBA{0, 0, 200, 255}})),
	}
}

type buffer struct{ bytes.Buffer }

func (*buffer) Close() error { return nil }

func digest(b []byte) string {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return fmt.Sprintf("%d bytes %x", len(b), h)
}

func failed(what string, err error) func() string {
	return func() string { return what + ": " + err.Error() }
}

func save(q *qrcode.QRCode, mk func(*buffer) qrcode.Writer) func() string {
	var b buffer
	if err := q.Save(mk(&b)); err != nil {
		return failed("save error", err)
	}
	return func() string { return digest(b.Bytes()) }
}

func std(o ...standard.ImageOption) func(*buffer) qrcode.Writer {
	return func(b *buffer) qrcode.Writer { return standard.NewWithWriter(b, o...) }
}

func small(o ...standard.ImageOption) func(*buffer) qrcode.Writer {
	return std(append([]standard.ImageOption{standard.WithQRWidth(3), standard.WithBorderWidth(2), standard.WithBuiltinImageEncoder(standard.PNG_FORMAT)}, o...)...)
}

func comp(b *buffer) qrcode.Writer {
	return compressed.NewWithWriter(b, &compressed.Option{Padding: 2, BlockSize: 2})
}

func encode(text string, o ...qrcode.EncodeOption) act {
	return act{f: func(*shared) func() string {
		q, err := qrcode.NewWith(text, o...)
		if err != nil {
			return failed("error", err)
		}
		s, err := qr.Of(q)
		if err != nil {
			return failed("save error", err)
		}
		return func() string { return fmt.Sprintf("v%d %x", (s.N-17)/4, hashSym(s)) }
	}}
}

func encodeSave(text string, mk func(*buffer) qrcode.Writer, o ...qrcode.EncodeOption) act {
	return act{f: func(*shared) func() string {
		q, err := qrcode.NewWith(text, o...)
		if err != nil {
			return failed("error", err)
		}
		return save(q, mk)
	}}
}

func saveShared(mk func(*buffer) qrcode.Writer) act {
	return act{uses: true, f: func(sh *shared) func() string { return save(sh.code, mk) }}
}

func fileSave(q func(sh *shared) (*qrcode.QRCode, error), uses bool) act {
	return act{uses: uses, f: func(sh *shared) func() string {
		c, err := q(sh)
		if err != nil {
			return failed("error", err)
		}
		f, err := os.CreateTemp("", "c08")
		if err != nil {
			return failed("no temporary file", err)
		}
		defer os.Remove(f.Name())
		defer f.Close()
		if err := c.Save(file.New(f)); err != nil {
			return failed("save error", err)
		}
		b, err := os.ReadFile(f.Name())
		if err != nil {
			return failed("cannot read back", err)
		}
		return func() string { return digest(b) }
	}}
}

func acts(th bool) []act {
	var out []act
	add := func(name string, a act) { a.name = name; out = append(out, a) }
	add("encode-v1-numeric", encode("12345", qr.EC[ref.L]))
	add("encode-auto", encode("hello, world: something that takes version 3 or 4"))
	add("encode-v7-byte", encode("https://example.org/?q=1", qr.Ver(7), qr.EC[ref.M]))
	add("encode-kanji", encode("漢字", qr.EC[ref.H], qr.Ver(2)))
	add("encode-v14-alnum", encode("HELLO WORLD", qr.Ver(14), qr.EC[ref.Q]))
	add("encode-shared-options", encode("shared", sharedEnc...))
	add("encode-fails", encode("not numeric", qr.Mode[ref.Numeric]))
	add("encode-too-long", encode(strings.Repeat("x", 300), qr.Ver(3), qr.EC[ref.H]))
	add("encode+png", encodeSave("png", small(), qr.EC[ref.L]))
	add("encode+jpeg-circle", encodeSave("jpeg", std(standard.WithQRWidth(4), standard.WithBorderWidth(1), standard.WithCircleShape(), standard.WithBgColorRGBHex("#fe0"))))
	add("encode+shared-options", encodeSave("IMG", std(sharedImg...), qr.Ver(2)))
	add("encode+compressed", encodeSave("compressed", comp))
	add("encode+text", fileSave(func(*shared) (*qrcode.QRCode, error) { return qrcode.New("text file") }, false))
	add("save-shared-png", saveShared(small(standard.WithFgColorRGBHex("#0a0"))))
	add("save-shared-liquid", saveShared(small(standard.WithCustomShape(shapes.Assemble(shapes.RoundedFinder(), shapes.LiquidBlock())))))
	add("save-shared-compressed", saveShared(comp))
	add("save-shared-text", fileSave(func(sh *shared) (*qrcode.QRCode, error) { return sh.code, nil }, true))
	add("save-shared-options", saveShared(std(sharedImg...)))
	if th {
		add("encode-v40", encode("v40", qr.Ver(40), qr.EC[ref.L]))
		add("encode-v25", encode("1", qr.Ver(25), qr.EC[ref.H]))
		add("encode-bytes", act{f: func(*shared) func() string {
			s, err := qr.EncodeBytes([]byte{0, 255, 1, 254}, qr.EC[ref.M])
			if err != nil {
				return failed("error", err)
			}
			return func() string { return fmt.Sprintf("%x", hashSym(s)) }
		}})
		add("save-shared-halftone", saveShared(small(standard.WithHalftoneImage(pictures[1]))))
		add("save-shared-shape", saveShared(small(standard.WithCustomShape(shapes.Assemble(shapes.SquareFinder(), shapes.ChainBlock())))))
	}
	return out
}

// program is a set of operations that run at the same time.
type program struct {
	as   []act
	warm bool
}

func (p program) String() string {
	var n []string
	for _, a := range p.as {
		n = append(n, a.name)
	}
	w := "first calls of the process"
	if p.warm {
		w = "after an encode of version 7"
	}
	return strings.Join(n, " || ") + ", " + w
}

var soloMu sync.Mutex
var soloOf = map[string]string{}

// solo is what an operation gives when it runs alone in a fresh process state.
func solo(a act) string {
	soloMu.Lock()
	defer soloMu.Unlock()
	if r, ok := soloOf[a.name]; ok {
		return r
	}
	var r string
	if len(vsched.Instrumented) > 0 {
		vsched.Delays(0, -1, true, false, func(st vsched.Strategy) (*vsched.Exec, bool) {
			fresh()
			sh := &shared{}
			return vsched.Run(st, false, false, func() { setup(sh, a.uses, false); r = a.f(sh)() }), true
		})
	} else {
		sh := &shared{}
		setup(sh, a.uses, false)
		r = a.f(sh)()
	}
	soloOf[a.name] = r
	return r
}

func setup(sh *shared, uses, warm bool) {
	if uses {
		sh.code, _ = qrcode.NewWith("shared code", qr.EC[ref.M], qr.Ver(2))
	}
	if warm {
		qrcode.NewWith("warm", qr.Ver(7))
	}
}

// sequential runs f alone under the default schedule.
type inTurn struct{}

func (inTurn) Pick(_ *vsched.Exec, en []int) int                { return en[0] }
func (inTurn) Data(*vsched.Exec, int) int                       { return 0 }
func (inTurn) Spawned(*vsched.Exec, int, int)                   {}
func (inTurn) Did(*vsched.Exec, int, []vsched.Acc, vsched.Kind) {}

func (p program) explore(byGroup bool, ex explorer) eng.Out {
	want := make([]string, len(p.as))
	uses := false
	for i, a := range p.as {
		want[i] = solo(a)
		uses = uses || a.uses
	}
	viol := ""
	full := int64(0)
	cov, err := ex(func(st vsched.Strategy) (*vsched.Exec, bool) {
		fresh()
		sh := &shared{}
		if uses || p.warm {
			if x := vsched.Run(inTurn{}, false, false, func() { setup(sh, uses, p.warm) }); x.Viol != "" {
				viol = x.Viol
				return x, false
			}
			if !p.warm {
				fresh()
			}
		}
		got := make([]func() string, len(p.as))
		var roots []func()
		for i := range p.as {
			i := i
			roots = append(roots, func() { got[i] = p.as[i].f(sh) })
		}
		x := vsched.Run(st, byGroup, true, roots...)
		if x.Viol != "" {
			viol = x.Viol + "\nschedule: " + x.Schedule()
			return x, false
		}
		if x.Endless {
			return x, true
		}
		for i := range p.as {
			if !x.MainDone[i] {
				return x, true // cut as redundant
			}
		}
		full++
		for i, a := range p.as {
			if g := got[i](); g != want[i] {
				viol = fmt.Sprintf("%s gives %q here and %q when it runs alone\nschedule: %s", a.name, g, want[i], x.Schedule())
				return x, false
			}
		}
		return x, true
	})
	if viol != "" {
		return eng.Out{Viol: viol}
	}
	o := eng.Out{Key: p.String(), Extra: map[string]int64{
		"schedules": full, "states_or_transitions": cov.Steps, "executions_cut_as_redundant": cov.Redundant, "reversible_pairs": cov.Races}}
	if cov.Capped || err != nil { // err: the same decisions did not give the same execution again
		o.Extra["capped"] = 1
	}
	for i := int64(1); i < full; i++ {
		o.Keys = append(o.Keys, fmt.Sprintf("%s #%d", p, i))
	}
	if len(o.Keys) > 0 {
		o.Keys = append(o.Keys, o.Key)
	}
	return o
}

func pairs(as []act, warm ...bool) (out []program) {
	for i, a := range as {
		for _, b := range as[i:] {
			for _, w := range warm {
				out = append(out, program{[]act{a, b}, w})
			}
		}
	}
	return
}

func triples(as []act) (out []program) {
	for i, a := range as {
		for j := i; j < len(as); j++ {
			for k := j; k < len(as); k++ {
				out = append(out, program{[]act{a, as[j], as[k]}, false})
			}
		}
	}
	return
}

// versions: two first encodes of the same version, of different levels and modes.
func versions(all bool) (out []program) {
	one := func(v, k int) act {
		text := []string{"31415", "AB", "héé", "茗"}[k%4]
		a := encode(text, qr.Ver(v), qr.EC[(v+k)%4])
		a.name = fmt.Sprintf("encode-v%d-%s-%q", v, qr.ECName[(v+k)%4], text)
		return a
	}
	for v := 1; v <= 40; v++ {
		ks := [][2]int{{v, v + 1}}
		if all {
			ks = [][2]int{{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 2}, {1, 3}, {v, v}}
		}
		for _, k := range ks {
			out = append(out, program{[]act{one(v, k[0]), one(v, k[1])}, false})
		}
		if all {
			for w := v + 1; w <= 40; w++ {
				out = append(out, program{[]act{one(v, v+w), one(w, w+1)}, false})
			}
		}
	}
	return
}

func programDPOR(name string, ps []program, capExecs int64, bin string) *eng.Space {
	return &eng.Space{Name: name, N: int64(len(ps)), Chunk: 1, Limit: 3000, Bin: bin,
		Run: func(i int64) eng.Out {
			return ps[i].explore(true, func(run func(vsched.Strategy) (*vsched.Exec, bool)) (vsched.Coverage, error) {
				return vsched.DPOR(capExecs, run)
			})
		},
		Desc: func(i int64) string {
			return ps[i].String() + ", all schedules of the calls (partial-order reduction)"
		}}
}

// programDelays: one case per program and block of first deviations; the number of steps is not known
// before the run, so the last block of a program runs to the end.
func programDelays(name string, ps []program, bound int, anyOther, spread bool, bin string) *eng.Space {
	const blocks = 8
	return &eng.Space{Name: name, N: int64(len(ps)) * blocks, Chunk: 1, Limit: 3000, Bin: bin,
		Run: func(i int64) eng.Out {
			p, b := ps[i/blocks], int(i%blocks)
			return p.explore(false, func(run func(vsched.Strategy) (*vsched.Exec, bool)) (cov vsched.Coverage, err error) {
				base, e := vsched.Delays(0, -1, anyOther, spread, run)
				if e != nil {
					return base, e
				}
				cov = base
				for f := b; int64(f) <= base.Steps; f += blocks {
					one, e := vsched.Delays(bound, f, anyOther, spread, run)
					cov.Execs += one.Execs
					cov.Steps += one.Steps
					cov.Capped = cov.Capped || one.Capped
					if e != nil {
						return cov, e
					}
				}
				return
			})
		},
		Desc: func(i int64) string {
			return fmt.Sprintf("%s, up to %d deviations from the %s schedule, first at a step that is %d modulo %d", ps[i/blocks], bound,
				map[bool]string{true: "round-robin", false: "run-on"}[spread], i%blocks, blocks)
		}}
}

// programTurns runs the program once, its goroutines in turn at every step.
func programTurns(name string, ps []program, bin string) *eng.Space {
	return &eng.Space{Name: name, N: int64(len(ps)), Chunk: 1, Limit: 3000, Bin: bin,
		Run: func(i int64) eng.Out {
			return ps[i].explore(false, func(run func(vsched.Strategy) (*vsched.Exec, bool)) (vsched.Coverage, error) {
				return vsched.Delays(0, -1, true, true, run)
			})
		},
		Desc: func(i int64) string { return ps[i].String() + ", round-robin schedule" }}
}

// programFree runs the program on the real scheduler.
func programFree(name string, ps []program, reps int, bin string) *eng.Space {
	return &eng.Space{Name: name, N: int64(len(ps)), Chunk: 1, Limit: 200, Bin: bin, Procs: 8,
		Run: func(i int64) eng.Out {
			p := ps[i]
			uses := false
			want := make([]string, len(p.as))
			for k, a := range p.as {
				want[k] = solo(a)
				uses = uses || a.uses
			}
			for r := 0; r < reps; r++ {
				if r == 0 && len(vsched.Instrumented) > 0 {
					fresh()
				}
				sh := &shared{}
				setup(sh, uses, p.warm)
				got := make([]func() string, len(p.as))
				var wg sync.WaitGroup
				var pan atomic.Value
				gate := make(chan bool)
				for k := range p.as {
					k := k
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if e := recover(); e != nil {
								pan.Store(fmt.Sprint(e))
							}
						}()
						<-gate
						got[k] = p.as[k].f(sh)
					}()
				}
				close(gate)
				done := make(chan bool)
				go func() { wg.Wait(); close(done) }()
				select {
				case <-done:
				case <-time.After(60 * time.Second):
					buf := make([]byte, 1<<16)
					return eng.V("the calls do not come back: %s", buf[:runtime.Stack(buf, true)])
				}
				if e := pan.Load(); e != nil {
					return eng.V("panic: %v", e)
				}
				for k, a := range p.as {
					if g := got[k](); g != want[k] {
						return eng.V("%s gives %q here and %q when it runs alone", a.name, g, want[k])
					}
				}
			}
			return eng.Out{Key: p.String(), Extra: map[string]int64{"runs_on_the_real_scheduler": int64(reps)}}
		},
		Desc: func(i int64) string { return fmt.Sprintf("%s, %d runs on the real scheduler", ps[i], reps) }}
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C08", Level: "exploration",
		Rule: "one execution per program (a set of encodes and saves that run at the same time) and schedule, on the real (instrumented) code from the package state of a fresh process or after one encode; every operation must give the output it gives alone, without panic or deadlock. Distinct by program and schedule; the dpor spaces run one schedule of every equivalence class of the calls (goroutines inside a call keep one order there; the delay spaces reorder those too).",
		Assumptions: []string{
			"scheduling points are the synchronisation operations of the root, standard, imgkit, shapes, compressed and file packages; accesses between them are covered by the race detector on the same schedules, with the scheduler's hand-overs hidden from it",
		},
		Bounds: map[string]string{
			"quick":    "all 171 pairs of 18 operations, cold and warm (every schedule of the two calls); all triples of them (cold); 1 deviation over all goroutines for all pairs; two first encodes of each of the 40 versions; race detector on all pairs, cold and warm, the 40 version pairs and 56 triples (every schedule of the calls) and 4 operations at a time on the real scheduler",
			"thorough": "all pairs of 23 operations, all triples of 23, 4 operations at a time of 7; 2 deviations for 3 pairs; first encodes of all pairs of versions; race detector on all pairs, all version pairs and triples of 8",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			as := acts(th)
			by := map[string]act{}
			for _, a := range as {
				by[a.name] = a
			}
			pick := func(n ...string) (out []act) {
				for _, k := range n {
					if a, ok := by[k]; ok {
						out = append(out, a)
					} else {
						panic(k)
					}
				}
				return
			}
			all := program{as, false}
			free := []program{{pick("encode-v7-byte", "encode-v14-alnum", "encode-auto", "encode-kanji", "encode-v1-numeric", "encode-shared-options", "encode-fails", "encode-too-long"), false},
				all, {pick("save-shared-png", "save-shared-liquid", "save-shared-compressed", "save-shared-text", "save-shared-options", "save-shared-png"), true},
				{pick("encode+shared-options", "encode+shared-options", "save-shared-options", "save-shared-options"), false},
				{pick("encode+jpeg-circle", "encode+png", "encode+compressed", "encode+text"), false}}
			if len(vsched.Instrumented) == 0 {
				sp := []*eng.Space{programFree("free", append(pairs(as, false), free...), 8, ""), programFree("free-race", append(pairs(as, false), free...), 1, "race")}
				for _, s := range sp {
					run := s.Run
					s.Run = func(i int64) eng.Out {
						o := run(i)
						if o.Extra != nil {
							o.Extra["capped"] = 1
						}
						return o
					}
				}
				return sp
			}
			core := pick("encode-v7-byte", "encode-v14-alnum", "encode-auto", "encode-shared-options", "save-shared-options", "encode-fails")
			few := []program{{pick("encode-v7-byte", "encode-v14-alnum"), false}, {pick("encode-v1-numeric", "encode-auto"), false}, {pick("encode-kanji", "encode-kanji"), false},
				{pick("save-shared-png", "encode-v7-byte"), false}, {pick("encode-fails", "encode-auto"), false}, {pick("encode-shared-options", "encode-shared-options"), true}}
			if th {
				return []*eng.Space{
					programDPOR("pairs", pairs(as, false, true), 20000, ""),
					programDPOR("triples", triples(as), 5000, ""),
					programDelays("delay1-run-on", pairs(as, false, true), 1, true, false, ""),
					programDelays("delay1-round-robin", pairs(as, false), 1, true, true, ""),
					programDelays("delay2-run-on", few[1:3], 2, false, false, ""),
					programFree("free", free, 200, ""),
					programDPOR("race-pairs", pairs(as, false), 1000, "race"),
					programDPOR("race-triples", triples(as[:8]), 200, "race"),
					programDPOR("versions", versions(true), 100, ""),
					programDPOR("race-versions", versions(true), 10, "race"),
					programTurns("race-turns", append(pairs(as, false, true), versions(true)...), "race"),
					programDelays("race-delay1", few[:2], 1, false, true, "race"),
					programFree("race-free", free, 20, "race"),
				}
			}
			return []*eng.Space{
				programDPOR("race-pairs", pairs(as, false, true), 50, "race"),
				programDPOR("race-triples", triples(core), 20, "race"),
				programDPOR("race-versions", versions(false), 10, "race"),
				programTurns("race-turns", append(pairs(as, false), versions(false)...), "race"),
				programFree("race-free", free, 2, "race"),
				programDPOR("versions", versions(false), 100, ""),
				programFree("free", free, 5, ""),
				programDelays("delay1-run-on", pairs(as, false), 1, true, false, ""),
				programDelays("delay1-round-robin", few, 1, true, true, ""),
				programDPOR("pairs", pairs(as, false, true), 2000, ""),
				programDPOR("triples", triples(as), 500, ""),
			}
		},
	})
}
