package props

import (
	"fmt"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

type verCase struct {
	m      ref.Mode // mode of the symbol
	forced bool     // explicit mode option
	tm     ref.Mode // mode the text is made for
	ec, n  int
	v, min int // explicit and minimum version, 0 = not given
}

func (c verCase) String() string {
	return fmt.Sprintf("%d characters of %s, mode %s forced=%v, level %s, WithVersion %d, WithMinimumVersion %d", c.n, c.tm, c.m, c.forced, qr.ECName[c.ec], c.v, c.min)
}

func runVer(c verCase) eng.Out {
	t := fill(c.tm, c.n, c.n*3+c.v)
	opts := []qrcode.EncodeOption{qr.EC[c.ec]}
	if c.min != 0 {
		opts = append(opts, qrcode.WithMinimumVersion(c.min))
	}
	if c.forced {
		opts = append(opts, qr.Mode[c.m])
	}
	if c.v != 0 {
		opts = append(opts, qr.Ver(c.v))
	}
	n := c.n
	if c.tm == ref.Kanji && c.m == ref.Byte {
		n = len(t)
	}
	want := c.v
	if want == 0 {
		want = ref.MinVersion(c.ec, c.m, n)
		if want != 0 && want < c.min {
			want = c.min
		}
	} else if n > ref.Cap(c.v, c.ec, c.m) {
		want = 0
	}
	code, err := qrcode.NewWith(t, opts...)
	if want == 0 {
		if err == nil {
			return eng.V("no error although the text does not fit (dimension %d)", code.Dimension())
		}
		if code != nil {
			return eng.V("an error and a code are returned together")
		}
		return eng.K("error %s %s %d %d", c.m, qr.ECName[c.ec], c.v, n)
	}
	if err != nil {
		return eng.V("error although version %d holds the text: %v", want, err)
	}
	if d := code.Dimension(); d != ref.Size(want) {
		return eng.V("dimension %d (version %d), want version %d", d, (d-17)/4, want)
	}
	s, err := qr.Of(code)
	if err != nil {
		return eng.V("save: %v", err)
	}
	if s.N != ref.Size(want) {
		return eng.V("symbol of %d modules a side, want version %d", s.N, want)
	}
	d, err := ref.DecodeStrict(s)
	if err != nil {
		return eng.V("not readable: %v", err)
	}
	if string(d.Text) != t || d.Mode != c.m || d.EC != c.ec {
		return eng.V("symbol holds %d of %d bytes in mode %s level %s", len(d.Text), len(t), d.Mode, qr.ECName[d.EC])
	}
	return eng.Out{Key: symKey(d)}
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C05", Level: "exploration",
		Rule:        "one encode per (mode, level, length, explicit version, minimum version); the dimension and the success or failure are compared with the capacity of the standard computed independently, successes are read back. Distinct by version, level, mode, mask, count and codewords (failures by mode, level, version and length).",
		Assumptions: []string{"capacities computed by mc/ref from the standard's block table (cross-checked with published capacities)"},
		Bounds: map[string]string{
			"quick":    "all 640 (version, level, mode) capacities with lengths cap-1..cap+2 and cap+50, explicit and automatic; all lengths 0..200 and every 7th to the end, automatic; digits and letters forced into denser-than-needed modes at every boundary; minimum versions 1..40 x 4 levels x 4 modes against short texts and texts of natural version 1, min-1, min, min+1; explicit and minimum version together",
			"thorough": "quick plus every length with automatic version and every explicit version with 40 lengths",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			var auto, frontier, forced, minv, both []verCase
			for _, c := range lenCases(th, 1) {
				auto = append(auto, verCase{m: c.m, tm: c.m, ec: c.ec, n: c.n})
			}
			for m := ref.Numeric; m <= ref.Kanji; m++ {
				for _, ec := range levels {
					for d := 1; d <= 20; d++ {
						auto = append(auto, verCase{m: m, tm: m, ec: ec, n: ref.Cap(40, ec, m) + d}, verCase{m: m, tm: m, ec: ec, n: ref.Cap(40, ec, m) * d * 2})
					}
				}
			}
			for v := 1; v <= 40; v++ {
				for _, ec := range levels {
					for m := ref.Numeric; m <= ref.Kanji; m++ {
						c := ref.Cap(v, ec, m)
						ns := []int{c - 1, c, c + 1, c + 2, c + 50}
						if th {
							for k := 0; k < 40; k++ {
								ns = append(ns, c*k/40)
							}
						}
						for _, n := range ns {
							frontier = append(frontier, verCase{m: m, tm: m, ec: ec, n: n, v: v})
						}
						// the text would fit a denser mode, but this one is asked for
						for tm := ref.Numeric; tm <= ref.Kanji; tm++ {
							if tm == m || m == ref.Kanji || tm > m && m != ref.Byte {
								continue
							}
							per := 1
							if tm == ref.Kanji {
								per = 3 // bytes per character
							}
							if tm == ref.Byte {
								continue
							}
							for _, n := range []int{c / per, c/per + 1} {
								forced = append(forced, verCase{m: m, forced: true, tm: tm, ec: ec, n: n})
								if v%4 == 1 || th {
									forced = append(forced, verCase{m: m, forced: true, tm: tm, ec: ec, n: n, v: v})
								}
							}
						}
					}
					// minimum version v
					for m := ref.Numeric; m <= ref.Kanji; m++ {
						seen := map[int]bool{}
						for _, nat := range []int{1, v - 1, v, v + 1, 40} {
							if nat < 1 || nat > 40 || seen[nat] {
								continue
							}
							seen[nat] = true
							minv = append(minv, verCase{m: m, tm: m, ec: ec, n: ref.Cap(nat, ec, m), min: v, forced: nat%3 == 0})
						}
						minv = append(minv, verCase{m: m, tm: m, ec: ec, n: 1, min: v}, verCase{m: m, tm: m, ec: ec, n: 2, min: v, forced: true})
						if m < ref.Byte {
							minv = append(minv, verCase{m: ref.Byte, tm: m, ec: ec, n: 5, min: v, forced: true})
						}
						minv = append(minv, verCase{m: m, tm: m, ec: ec, n: ref.Cap(40, ec, m) + 1, min: v})
					}
					for _, mn := range []int{1, v - 1, v, v + 1, 40} {
						if mn < 1 || mn > 40 {
							continue
						}
						for _, n := range []int{0, ref.Cap(v, ec, ref.Alnum), ref.Cap(v, ec, ref.Alnum) + 1} {
							both = append(both, verCase{m: fillMode(ref.Alnum, n), tm: ref.Alnum, ec: ec, n: n, v: v, min: mn})
						}
					}
				}
			}
			fix := func(cs []verCase) []verCase { // an empty text is numeric unless forced
				for i := range cs {
					if cs[i].n == 0 && !cs[i].forced {
						cs[i].m = ref.Numeric
					}
				}
				return cs
			}
			mk := func(name string, cs []verCase) *eng.Space {
				return list(name, fix(cs), runVer, verCase.String)
			}
			return []*eng.Space{mk("automatic", auto), mk("frontier", frontier), mk("forced-mode", forced), mk("minimum", minv), mk("both", both)}
		},
	})
}

func fillMode(m ref.Mode, n int) ref.Mode {
	if n == 0 {
		return ref.Numeric
	}
	return m
}
