package props

import (
	"fmt"
	"strings"
	"sync"
	"unicode/utf8"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"
)

func autoMode(text string, i int64) eng.Out { return autoModeAt(text, int(i%4)) }

func autoModeAt(text string, ec int) eng.Out {
	s, err := qr.Encode(text, qr.EC[ec])
	if err != nil {
		return eng.V("encoding failed: %v", err)
	}
	_, mask, err := ref.ReadFormat(s, 0)
	if err != nil {
		return eng.V("%v", err)
	}
	ver := (s.N - 17) / 4
	cw, _ := ref.Codewords(s, mask)
	blocks := ref.Deinterleave(cw, ver, ec)
	var data []byte
	for j, b := range ref.Blocks(ver, ec) {
		data = append(data, blocks[j][:b.Data]...)
	}
	want := ref.AutoMode(text)
	d, err := ref.ParseData(data, ver)
	if d.Mode != want {
		return eng.V("mode %s, want %s", d.Mode, want)
	}
	cnt := len(text)
	if want == ref.Kanji {
		cnt = utf8.RuneCountInString(text)
	}
	if d.Count != cnt {
		return eng.V("character count %d, want %d", d.Count, cnt)
	}
	if err != nil || string(d.Text) != text {
		return eng.V("segment reads as %s (%v)", q(string(d.Text)), err)
	}
	return eng.K("%s n=%d v%d %x", d.Mode, d.Count, ver, hashBytes(cw))
}

// lateCase is a long text of one class with a character of another one.
type lateCase struct{ n, pos, base, odd int }

func (c lateCase) text() string {
	return strings.Repeat(classes[c.base], c.pos) + classes[c.odd] + strings.Repeat(classes[c.base], c.n-c.pos)
}

// lateCases are as long as version 40 can hold.
func lateCases(step int) (out []lateCase) {
	for b, s := range classes {
		for o, t := range classes {
			max := ref.Cap(40, 0, ref.AutoMode(s+t))
			if m := ref.AutoMode(s + t); m == ref.Byte {
				max = (max - len(t)) / len(s)
			} else {
				max--
			}
			var l []int
			for _, n := range []int{64, 100, 127, 128, 200, 254, 255, 256, 257, 300, 400, 500, 511, 512, 513, 600, 700, 800, 900, 999, 1000, 1001, 1023, 1024, 1025, 1200, 1500, 1800, 2000, 2001, 2047, 2048, 2049, 2100, 2500, 2900, 3000, 3500, 4000, 4095, 4096, 4097} {
				if n < max {
					l = append(l, n)
				}
			}
			for n := 61; n < max; n += step {
				l = append(l, n)
			}
			for _, n := range append(l, max) {
				for _, pos := range []int{n, n - 1, n / 2, 1, 0} {
					out = append(out, lateCase{n, pos, b, o})
				}
			}
		}
	}
	return
}

// astral are runes of planes 1 to 16 whose low 16 bits are those of digits, letters, kana, kanji or at an edge.
var astral = sync.OnceValue(func() (out []rune) {
	for p := rune(1); p <= 16; p++ {
		for _, r := range [][2]rune{{0, 0xff}, {0x2010, 0x2020}, {0x3000, 0x30ff}, {0x4dfe, 0x4e40}, {0x6f00, 0x6f30}, {0x9f90, 0xa002}, {0xd7fe, 0xe002}, {0xfeff, 0xff70}, {0xfff8, 0xffff}} {
			for l := r[0]; l <= r[1]; l++ {
				out = append(out, p<<16|l)
			}
		}
	}
	return
})

func init() {
	eng.Register(&eng.Prop{
		ID: "C04", Level: "exploration",
		Rule:        "one encode without explicit mode per text; mode indicator, count and content of the segment in the symbol compared with the documented rule. Distinct by mode, count, version and codewords.",
		Assumptions: []string{"kanji means the CJK-block runes of Shift JIS double-byte ranges 8140-9FFC and E040-EBBF, from CPython's shift_jis codec"},
		Bounds: map[string]string{
			"quick":    "every BMP rune, and about 1000 of each other plane whose low bits are those of digits, letters and kanji, alone and after/before a digit, a letter and a kanji; all class words up to length 4; one odd character at every position of 1..60 others, and at five positions of about 50 numbers of others up to the capacity, for all ordered class pairs; all byte pairs over 0x00,0x2f,0x30,0x39,0x3a,... boundary bytes",
			"thorough": "every rune of Unicode in the same contexts; class words up to length 6",
		},
		Spaces: func(tier string) []*eng.Space {
			nr, cls := int64(0x10000), 4
			if tier == "thorough" {
				nr, cls = 0x110000, 6
			}
			ctx := [][2]string{{"", ""}, {"1", ""}, {"", "1"}, {"A", ""}, {"世", ""}, {"", "世"}}
			nc := int64(len(ctx))
			rt := func(i int64) string { c := ctx[i%nc]; return c[0] + string(rune(i/nc)) + c[1] }
			k := len(classes)
			const maxLen = 60
			odd := func(i int64) string {
				c := combo(i, maxLen, k, k, 3)
				n := c[0] + 1
				pos := []int{0, n / 2, n}[c[3]]
				return strings.Repeat(classes[c[1]], pos) + classes[c[2]] + strings.Repeat(classes[c[1]], n-pos)
			}
			var edge []byte
			for b := 0; b < 256; b++ {
				switch {
				case b <= 2, b >= 0x1f && b <= 0x61, b >= 0x79 && b <= 0x82, b >= 0xbe && b <= 0xc3, b >= 0xe2 && b <= 0xf0, b >= 0xfe:
					edge = append(edge, byte(b))
				}
			}
			ne := int64(len(edge))
			mk := func(name string, n int64, f func(int64) string) *eng.Space {
				return &eng.Space{Name: name, N: n, Run: func(i int64) eng.Out { return autoMode(f(i), i) },
					Desc: func(i int64) string { return fmt.Sprintf("text %s level %s", q(f(i)), qr.ECName[i%4]) }}
			}
			step := 397
			if tier == "thorough" {
				step = 11
			}
			return []*eng.Space{
				mk("runes", nr*nc, rt),
				mk("runes of other planes", int64(len(astral()))*nc, func(i int64) string {
					c := ctx[i%nc]
					return c[0] + string(astral()[i/nc]) + c[1]
				}),
				mk("class-words", wordCount(k, cls), classWord),
				mk("odd-one", prod(maxLen, k, k, 3), odd),
				list("late", lateCases(step), func(c lateCase) eng.Out { return autoModeAt(c.text(), 0) }, func(c lateCase) string {
					return fmt.Sprintf("%q repeated %d times, with %q at %d", classes[c.base], c.n, classes[c.odd], c.pos)
				}),
				mk("edge-bytes", ne*ne, func(i int64) string { return string([]byte{edge[i/ne], edge[i%ne]}) }),
			}
		},
	})
}
