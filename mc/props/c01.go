package props

import (
	"fmt"
	"strings"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"
)

func init() {
	eng.Register(&eng.Prop{
		ID: "C01", Level: "exploration",
		Rule: "one encode per enumerated (text, input type, mode, version, level); the symbol is read back by the independent strict reader and compared byte for byte. Non-trivial: encoding succeeded and a whole symbol was decoded; distinct by version, level, mask, mode, count and codewords.",
		Assumptions: []string{
			"the independent reader in mc/ref implements ISO/IEC 18004 (cross-checked against its own encoder)",
			"kanji means the CJK-block runes of Shift JIS double-byte ranges 8140-9FFC and E040-EBBF, from CPython's shift_jis codec",
		},
		Bounds: map[string]string{
			"quick":    "all byte strings of length <=2, as string and as []byte; all sequences of up to 4 of 14 bytes that text handling treats specially, and 110 such sequences of characters before, after, between and within 17 others, likewise; all digit strings <=4; all alphanumeric triples; every BMP rune and about 1000 of each other plane alone; every kanji; all sequences of 10 character classes up to length 4; every length 0..capacity for 4 modes x 4 levels with automatic version (stride 1 up to 200 and within 6 of each version boundary, else every 7th); all 40x4x4 explicit (version, level, mode) with 9 lengths",
			"thorough": "quick plus all digit strings of 5-6, class sequences to length 6, every rune of Unicode, and every length 0..capacity without stride, twice with different contents",
		},
		Spaces: c01spaces,
	})
}

// edgeBytes are bytes that trimming, text decoding or C-like string handling treats specially.
var edgeBytes = []byte{0, ' ', '\t', '\n', '\r', 'a', '0', '\\', '"', 0x7f, 0xff, 0xef, 0xbb, 0xbf}

func edgeWord(i int64) string {
	var b []byte
	for _, c := range word(i/2, len(edgeBytes)) {
		b = append(b, edgeBytes[c])
	}
	return string(b)
}

// specials are character sequences which other programs treat specially.
var specials = []string{
	"\ufeff", "\xff\xfe", "\xfe\xff", "\xff\xfe\x00\x00", "\x00\x00\xfe\xff", "+/v8-", "\x1b$B", "\x1b(B", "\x1b[0m", "\x1b%G",
	"\\000026", "\\000003", "]Q1", "]Q2", "]Q3", "]C1", "\x1d", "%", "%%", "\x1e\x04", "[)>\x1e06\x1d", "\x05", "\x1a", "\x03",
	"\r\n", "\n\r", "\r\n\r\n", "\u2028", "\u2029", "\u0085", "\v", "\f", "\u00a0", "\u3000", "\u200b", "\u200e", "\u202e", "\u00ad", "\ufffd", "\ufffe", "\uffff",
	"e\u0301", "\u00e9", "\u212b", "\ufb01", "\uff11", "\uff21", "\uff71", "\u0131", "\u1e9e", "\u017f", "\u212a", "\U0001f468\u200d\U0001f469", "\U0001f1e9\U0001f1ea", "\ufe0f",
	"\xed\xa0\x80", "\xed\xa0\xbd\xed\xb8\x80", "\xc0\x80", "\xc0\xaf", "\xe0\x80\x80", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xe2\x82", "\x80", "\xc3",
	"\x82\xa0", "\x93\xfa", "\xa4\xa2", "\x81\x40", "\x95\x5c", "\\", "\\n", "\\u0041", "\\x41", "&amp;", "&#65;", "%41", "=41", "%s", "%d", "%!", "%n", "$1", "${a}", "{{.}}", "<br>", "\"", "'", "\x00",
	"http://", "HTTP://A", "mailto:", "tel:", "WIFI:T:WPA;S:a;P:b;;", "BEGIN:VCARD\nEND:VCARD", "+-1", "-1", "007", "0x1F", "1e9", "1_000", "1,5", "1.50", " 1", "NaN", "null", "nil", "true", "\t", "  ", "a  b", "\x7f", "\b", "\a",
}

var specialFill = []string{"1", "12", "123", "A", "AB", "a", "ab", "世", "世界", "é", "\xff", "\x00", " ", "\n", "0123456789012345678901234567890123456789", "ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJ", "a text of more than 32 characters, a text of more than 32"}

// specialText has a special sequence alone, twice, before, after, between and within other text.
func specialText(i int64) string {
	c := combo(i, len(specials), len(specialFill), 7)
	s, f := specials[c[0]], specialFill[c[1]]
	switch c[2] {
	case 0:
		return s + f
	case 1:
		return f + s
	case 2:
		return f + s + f
	case 3:
		return s + f + s
	case 4:
		return s + s + f
	case 5:
		return f + s + s
	}
	return strings.Repeat(s, 1+len(f)) // the filler counts
}

type lenCase struct {
	m     ref.Mode
	ec, n int
	salt  int
}

// lenCases lists (mode, level, length) with automatic version.
func lenCases(full bool, salts ...int) (out []lenCase) {
	for m := ref.Numeric; m <= ref.Kanji; m++ {
		for _, ec := range levels {
			near := map[int]bool{}
			for v := 1; v <= 40; v++ {
				c := ref.Cap(v, ec, m)
				for d := -5; d <= 6; d++ {
					near[c+d] = true
				}
			}
			top := ref.Cap(40, ec, m)
			for n := 0; n <= top; n++ {
				if full || n <= 200 || near[n] || n%7 == 0 {
					for _, s := range salts {
						out = append(out, lenCase{m, ec, n, s + n})
					}
				}
			}
		}
	}
	return
}

func c01spaces(tier string) []*eng.Space {
	th := tier == "thorough"
	rt := func(text string, i int64) eng.Out { _, o := roundTrip(text, i%2 == 1); return o }
	bytes2 := func(i int64) string {
		var b []byte
		for _, c := range word(i, 256) {
			b = append(b, byte(c))
		}
		return string(b)
	}
	digits := func(i int64) string {
		var b []byte
		for _, c := range word(i, 10) {
			b = append(b, byte('0'+c))
		}
		return string(b)
	}
	maxDig, maxCls := 4, 4
	if th {
		maxDig, maxCls = 6, 6
	}
	alnum3 := func(i int64) string {
		c := combo(i, 45, 45, 45)
		return string([]byte{ref.AlnumSet[c[0]], ref.AlnumSet[c[1]], ref.AlnumSet[c[2]]})
	}
	nRunes := int64(0x10000)
	if th {
		nRunes = 0x110000
	}
	kj := ref.KanjiRunes()
	text := func(name string, n int64, f func(int64) string) *eng.Space {
		return &eng.Space{Name: name, N: n, Run: func(i int64) eng.Out { return rt(f(i), i) },
			Desc: func(i int64) string { return fmt.Sprintf("text %q bytes=%v", f(i), i%2 == 1) }}
	}
	lens := lenCases(th, 1)
	if th {
		lens = lenCases(true, 1, 1001)
	}
	type expl struct {
		v, ec int
		m     ref.Mode
		n     int
	}
	var ex []expl
	for v := 1; v <= 40; v++ {
		for _, ec := range levels {
			for m := ref.Numeric; m <= ref.Kanji; m++ {
				c := ref.Cap(v, ec, m)
				seen := map[int]bool{}
				for _, n := range []int{0, 1, 2, 3, 4, c / 2, c - 2, c - 1, c} {
					if n >= 0 && n <= c && !seen[n] {
						seen[n] = true
						ex = append(ex, expl{v, ec, m, n})
					}
				}
			}
		}
	}
	return []*eng.Space{
		text("bytes<=2", 2*wordCount(256, 2), func(i int64) string { return bytes2(i / 2) }),
		text("digits", wordCount(10, maxDig), digits),
		text("alnum3", 45*45*45, alnum3),
		text("kanji-pairs", int64(len(kj)), func(i int64) string { return string([]rune{kj[i], kj[(i*7+1)%int64(len(kj))]}) }),
		text("runes", nRunes, func(i int64) string { return string(rune(i)) }),
		text("runes of other planes", int64(len(astral())), func(i int64) string { return string(astral()[i]) }),
		text("class-words", 2*wordCount(len(classes), maxCls), func(i int64) string { return classWord(i / 2) }),
		text("edge-bytes", 2*wordCount(len(edgeBytes), 4), edgeWord),
		text("specials", 2*prod(len(specials), len(specialFill), 7), func(i int64) string { return specialText(i / 2) }),
		list("lengths", lens, func(c lenCase) eng.Out {
			t := fill(c.m, c.n, c.salt)
			_, o := roundTrip(t, c.n%2 == 0, qr.EC[c.ec])
			return o
		}, func(c lenCase) string {
			return fmt.Sprintf("%s level %s length %d salt %d", c.m, qr.ECName[c.ec], c.n, c.salt)
		}),
		list("explicit", ex, func(c expl) eng.Out {
			t := fill(c.m, c.n, c.v*7+c.n)
			d, o := roundTrip(t, c.n%2 == 1, qr.Ver(c.v), qr.EC[c.ec], qr.Mode[c.m])
			if o.Viol == "" && (d.Ver != c.v || d.EC != c.ec || d.Mode != c.m) {
				return eng.V("symbol is v%d-%s %s", d.Ver, qr.ECName[d.EC], d.Mode)
			}
			return o
		}, func(c expl) string {
			return fmt.Sprintf("version %d level %s mode %s length %d", c.v, qr.ECName[c.ec], c.m, c.n)
		}),
	}
}
