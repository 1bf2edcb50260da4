package props

import (
	"fmt"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

// maskMinimal recomputes all eight candidates of a symbol.
func maskMinimal(s *ref.Symbol) eng.Out {
	ver := (s.N - 17) / 4
	ec, mask, err := ref.ReadFormat(s, 0)
	if err != nil {
		return eng.V("%v", err)
	}
	cw, _ := ref.Codewords(s, mask)
	var lo, hi [8]int
	for m := 0; m < 8; m++ {
		c := ref.Draw(cw, ver, ec, m)
		if m == mask {
			if n, how := s.Diff(c); n != 0 {
				return eng.V("symbol is not the mask %d candidate of its own data: %d modules differ, %s", m, n, how)
			}
		}
		lo[m], hi[m] = ref.PenaltyRange(c)
	}
	for m := 0; m < 8; m++ {
		if lo[mask] > hi[m] {
			return eng.V("mask %d with penalty %d chosen, mask %d has %d (all: %v; v%d-%s)", mask, lo[mask], m, hi[m], lo, ver, qr.ECName[ec])
		}
	}
	ties := int64(0)
	for m := 0; m < 8; m++ {
		if m != mask && lo[m] == lo[mask] {
			ties = 1
		}
	}
	return eng.Out{Key: fmt.Sprintf("v%d %d %v", ver, mask, lo), Extra: map[string]int64{"candidates_scored": 8, "tied_minimum": ties}}
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C10", Level: "exploration",
		Rule: "one encode per case; all eight masked candidates of its codewords are rebuilt and scored by an independent implementation of the four documented rules, the mask used must have the lowest score. Distinct by version, mask and score vector.",
		Assumptions: []string{
			"rule 3 counts the two 11-module patterns inside the symbol, overlaps included, in rows and columns (as documented in the code and at thonky.com)",
			"when the dark proportion is an exact multiple of five percent the documentation leaves 'previous and next multiple' open; both readings are accepted",
		},
		Bounds: map[string]string{
			"quick":    "all texts of up to 2 bytes, all class words up to length 3 at 4 levels, all digit strings of 1-4, 40x4 layouts x 16 texts",
			"thorough": "class words up to length 5 at 4 levels, 40x4 layouts x 150 texts, every length with automatic version",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			cls, k := 3, 16
			if th {
				cls, k = 5, 150
			}
			run := func(t string, o ...qrcode.EncodeOption) eng.Out {
				s, err := qr.Encode(t, o...)
				if err != nil {
					return eng.V("encoding failed: %v", err)
				}
				return maskMinimal(s)
			}
			sp := []*eng.Space{
				{Name: "bytes<=2", N: wordCount(256, 2), Run: func(i int64) eng.Out { return run(bytesWord(i)) },
					Desc: func(i int64) string { return fmt.Sprintf("text %q", bytesWord(i)) }},
				{Name: "digits", N: 4 * 10000, Run: func(i int64) eng.Out { return run(fmt.Sprint(i/4), qr.EC[i%4]) },
					Desc: func(i int64) string { return fmt.Sprintf("text %d level %s", i/4, qr.ECName[i%4]) }},
				{Name: "class-words", N: 4 * wordCount(len(classes), cls), Run: func(i int64) eng.Out { return run(classWord(i/4), qr.EC[i%4]) },
					Desc: func(i int64) string { return fmt.Sprintf("text %q level %s", classWord(i/4), qr.ECName[i%4]) }},
				{Name: "layouts", N: prod(k, 40, 4), Chunk: 8, Run: func(i int64) eng.Out {
					c := combo(i, k, 40, 4)
					_, t := textFor(c[1]+1, c[2], c[0])
					if c[0]%8 == 7 {
						t = "0"
					}
					return run(t, qr.Ver(c[1]+1), qr.EC[c[2]])
				}, Desc: func(i int64) string {
					c := combo(i, k, 40, 4)
					return fmt.Sprintf("version %d level %s text %d", c[1]+1, qr.ECName[c[2]], c[0])
				}},
			}
			if th {
				sp = append(sp, list("lengths", lenCases(true, 3), func(c lenCase) eng.Out {
					return run(fill(c.m, c.n, c.salt), qr.EC[c.ec])
				}, func(c lenCase) string { return fmt.Sprintf("%s level %s length %d", c.m, qr.ECName[c.ec], c.n) }))
			}
			return sp
		},
	})
}

func bytesWord(i int64) string {
	var b []byte
	for _, c := range word(i, 256) {
		b = append(b, byte(c))
	}
	return string(b)
}
