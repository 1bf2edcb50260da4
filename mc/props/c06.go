package props

import (
	"fmt"
	"strings"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

// opt is one letter of the option alphabet with its effect on the reference state.
type opt struct {
	name  string
	o     qrcode.EncodeOption
	apply func(*optState)
}

type optState struct {
	ver, min, ec int
	mode         int // -1 auto, -2 not a mode, else ref.Mode
}

func optAlphabet(full bool) (out []opt) {
	add := func(name string, o qrcode.EncodeOption, f func(*optState)) { out = append(out, opt{name, o, f}) }
	vers := []int{0, -1, 1, 2, 7, 40, 41}
	mins := []int{0, 1, 5, 40, 41, -3}
	if full {
		vers = append(vers, 10, 27, 9, 26, 39, 1<<31)
		mins = append(mins, 2, 10, 27, 39, 1<<31)
	}
	for _, v := range vers {
		v := v
		add(fmt.Sprintf("Version(%d)", v), qrcode.WithVersion(v), func(s *optState) {
			if v >= 1 && v <= 40 {
				s.ver = v
			}
		})
	}
	for _, v := range mins {
		v := v
		add(fmt.Sprintf("Min(%d)", v), qrcode.WithMinimumVersion(v), func(s *optState) {
			if v >= 1 && v <= 40 {
				s.min = v
			}
		})
	}
	for e := range qr.EC {
		e := e
		add("EC("+qr.ECName[e]+")", qr.EC[e], func(s *optState) { s.ec = e })
	}
	add("EC(low-1)", qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionLow-1), func(*optState) {})
	add("EC(high+1)", qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionHighest+1), func(*optState) {})
	add("EC(1<<20)", qrcode.WithErrorCorrectionLevel(1<<20), func(*optState) {})
	for m := range qr.Mode {
		m := m
		add("Mode("+ref.Mode(m).String()+")", qr.Mode[m], func(s *optState) { s.mode = m })
	}
	add("Mode(auto)", qrcode.WithEncodingMode(qrcode.EncModeAuto), func(s *optState) { s.mode = -1 })
	add("Mode(none)", qrcode.WithEncodingMode(qrcode.EncModeNone), func(s *optState) { s.mode = -2 })
	add("Mode(3)", qrcode.WithEncodingMode(3), func(s *optState) { s.mode = -2 })
	add("Mode(64)", qrcode.WithEncodingMode(64), func(s *optState) { s.mode = -2 })
	return
}

// c06texts has one text per class of mode support, and per size around a version limit.
var c06texts = []string{"", "0123456", "AB-1", "世界", "héllo", "1世", "世1", "\xff\xfe", strings.Repeat("9", 400), strings.Repeat("x", 90)}

func runOpts(text string, ops []opt) eng.Out {
	st := optState{ec: ref.Q, mode: -1}
	var o []qrcode.EncodeOption
	for _, p := range ops {
		o = append(o, p.o)
		p.apply(&st)
	}
	wantErr := ""
	m := ref.Mode(0)
	if st.mode == -1 {
		m = ref.AutoMode(text)
	} else if st.mode == -2 {
		wantErr = "not a mode"
	} else {
		m = ref.Mode(st.mode)
		if !ref.Fits(m, text) {
			wantErr = "characters outside the mode"
		}
	}
	ver := st.ver
	if wantErr == "" {
		n := len(text)
		if m == ref.Kanji {
			n = len([]rune(text))
		}
		if ver == 0 {
			if ver = ref.MinVersion(st.ec, m, n); ver == 0 {
				wantErr = "too long"
			} else if ver < st.min {
				ver = st.min
			}
		} else if n > ref.Cap(ver, st.ec, m) {
			wantErr = "too long for the version"
		}
	}
	s, err := qr.Encode(text, o...)
	if wantErr != "" {
		if err == nil {
			return eng.V("no error (%s)", wantErr)
		}
		return eng.K("error: %s", wantErr)
	}
	if err != nil {
		return eng.V("unexpected error: %v", err)
	}
	d, err := ref.DecodeStrict(s)
	if err != nil {
		return eng.V("not readable: %v", err)
	}
	if string(d.Text) != text || d.Mode != m || d.EC != st.ec || d.Ver != ver {
		return eng.V("got version %d level %s mode %s text %s, want version %d level %s mode %s", d.Ver, qr.ECName[d.EC], d.Mode, q(string(d.Text)), ver, qr.ECName[st.ec], m)
	}
	return eng.Out{Key: symKey(d)}
}

type (
	namedString string
	namedBytes  []byte
	aliasString = string
)

func inputText(i int64) string {
	if i < 256 {
		return "x" + string([]byte{byte(i)})
	}
	return edgeWord(2 * (i - 256))
}

// asType passes a text to New or NewWith as one of the kinds of type they take.
func asType(t string, k int) (*qrcode.QRCode, error) {
	switch k {
	case 0:
		return qrcode.New(t)
	case 1:
		return qrcode.NewWith(t)
	case 2:
		return qrcode.New([]byte(t))
	case 3:
		return qrcode.NewWith([]byte(t))
	case 4:
		return qrcode.New(namedString(t))
	case 5:
		return qrcode.NewWith(namedString(t))
	case 6:
		return qrcode.New(namedBytes(t))
	}
	return qrcode.NewWith(namedBytes(t))
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C06", Level: "exploration",
		Rule:        "one NewWith call per (text, option sequence); the reference folds the sequence (last valid wins) and predicts error or (version, level, mode), and the symbol must read back so. Distinct by predicted failure or symbol.",
		Assumptions: []string{"an error result is distinguished from success only; error texts are not specified"},
		Bounds: map[string]string{
			"quick":    "all option sequences of length <=2 over 28 letters for 10 texts, of length 3 for 2 texts; all named types for class words <=2; string, []byte and named types through New and NewWith for every byte after a letter and all words <=2 of 14 special bytes",
			"thorough": "all sequences of length <=3 over 39 letters for 10 texts",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			al := optAlphabet(th)
			k := len(al)
			seq := func(ws []int) []opt {
				var o []opt
				for _, w := range ws {
					o = append(o, al[w])
				}
				return o
			}
			name := func(ws []int) string {
				var n []string
				for _, w := range ws {
					n = append(n, al[w].name)
				}
				return strings.Join(n, " ")
			}
			mk := func(nm string, texts []string, depth int) *eng.Space {
				nt := int64(len(texts))
				return &eng.Space{Name: nm, N: nt * wordCount(k, depth), Run: func(i int64) eng.Out {
					return runOpts(texts[i%nt], seq(word(i/nt, k)))
				}, Desc: func(i int64) string {
					return fmt.Sprintf("text %s options [%s]", q(texts[i%nt]), name(word(i/nt, k)))
				}}
			}
			sp := []*eng.Space{
				{Name: "named-types", N: wordCount(len(classes), 2) * 5, Run: func(i int64) eng.Out {
					t := classWord(i / 5)
					want, err := qr.Encode(t)
					if err != nil {
						return eng.V("string: %v", err)
					}
					var code *qrcode.QRCode
					switch i % 5 {
					case 0:
						code, err = qrcode.New(namedString(t))
					case 1:
						code, err = qrcode.New(namedBytes(t))
					case 2:
						code, err = qrcode.NewWith(namedString(t))
					case 3:
						code, err = qrcode.NewWith(namedBytes(t))
					case 4:
						code, err = qrcode.New([]byte(t))
					}
					if err != nil {
						return eng.V("%v", err)
					}
					got, err := qr.Of(code)
					if err != nil {
						return eng.V("%v", err)
					}
					if n, how := got.Diff(want); n != 0 {
						return eng.V("symbol differs from that of the plain string: %s", how)
					}
					return eng.K("%x", hashSym(got))
				}, Desc: func(i int64) string { return fmt.Sprintf("text %q as type %d", classWord(i/5), i%5) }},
			}
			sp = append(sp, &eng.Space{Name: "input-types", N: int64(wordCount(len(edgeBytes), 2)+256) * 8, Run: func(i int64) eng.Out {
				t := inputText(i / 8)
				code, err := asType(t, int(i%8))
				if err != nil {
					return eng.V("%v", err)
				}
				got, err := qr.Of(code)
				if err != nil {
					return eng.V("%v", err)
				}
				d, err := ref.DecodeStrict(got)
				if err != nil {
					return eng.V("not readable: %v", err)
				}
				if m := ref.AutoMode(t); string(d.Text) != t || d.Mode != m {
					return eng.V("read back as %q (%s), want %s", d.Text, d.Mode, m)
				}
				return eng.Out{Key: symKey(d)}
			}, Desc: func(i int64) string { return fmt.Sprintf("text %q as type %d", inputText(i/8), i%8) }})
			if th {
				return append(sp, mk("sequences<=3", c06texts, 3))
			}
			return append(sp, mk("sequences<=2", c06texts, 2), mk("sequences<=3", []string{"0123456", "世1"}, 3))
		},
	})
}
