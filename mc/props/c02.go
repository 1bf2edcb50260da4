package props

import (
	"fmt"
	"strings"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

// textFor makes the k-th test text for a layout: modes and lengths vary with k.
func textFor(v, ec, k int) (ref.Mode, string) {
	m := ref.Mode(k % 4)
	c := ref.Cap(v, ec, m)
	n := c
	switch k / 4 % 4 {
	case 1:
		n = c / 2
	case 2:
		n = c - c/7
	case 3:
		n = c * (k%5 + 1) / 6
	}
	return m, fill(m, n, k*131+v*4+ec)
}

// repeats are units of texts whose blocks resemble each other.
var repeats = []string{"\x00", "\xff", "a", "\xec\x11", "\x11\xec", "\x1e\xc1", "0123456", "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01"}

func repeated(k, n int) string { return strings.Repeat(repeats[k], n/len(repeats[k])+1)[:n] }

// verOpts are ways to ask for a version that holds the text.
func verOpts(way, v, ec int, m ref.Mode) []qrcode.EncodeOption {
	switch way {
	case 1:
		return []qrcode.EncodeOption{qrcode.WithMinimumVersion(v), qr.EC[ec], qr.Mode[m]}
	case 2:
		return []qrcode.EncodeOption{qr.Mode[m], qr.EC[ec], qr.Ver(v), qrcode.WithMinimumVersion(v)}
	case 3:
		return []qrcode.EncodeOption{qrcode.WithMinimumVersion(1 + v/2), qr.Mode[m], qr.Ver(41 - v), qr.EC[(ec+1)%4], qr.Ver(v), qr.EC[ec]}
	}
	return []qrcode.EncodeOption{qr.Ver(v), qr.EC[ec], qr.Mode[m]}
}

var verWays = []string{"WithVersion", "WithMinimumVersion", "WithVersion then WithMinimumVersion", "WithMinimumVersion of half then another WithVersion and level then WithVersion"}

func init() {
	eng.Register(&eng.Prop{
		ID: "C02", Level: "exploration",
		Rule:        "one encode per (version, level, text number), read module by module: function patterns, both format copies, both version copies, and the data de-masked with the announced mask must read back. Distinct by (version, level, mask): distinct_nontrivial of the space 'layouts' counts the covered ones of 1280.",
		Assumptions: []string{"the layout model in mc/ref implements ISO/IEC 18004 annexes C, D, E"},
		Bounds: map[string]string{
			"quick":    "40 versions x 4 levels x 64 texts; x 3 other ways to ask for the version x 8 texts; 4 levels x automatic versions over class words <=3 and 400 lengths",
			"thorough": "40 versions x 4 levels x 400 texts and every length with automatic version",
		},
		Spaces: func(tier string) []*eng.Space {
			k, cls := 64, 3
			if tier == "thorough" {
				k, cls = 400, 5
			}
			chk := func(s *ref.Symbol, ec int, v int, text string) eng.Out {
				ver, e, mask, err := ref.CheckFunction(s)
				if err != nil {
					return eng.V("%v", err)
				}
				if e != ec {
					return eng.V("format information states level %s, asked for %s", qr.ECName[e], qr.ECName[ec])
				}
				if v != 0 && ver != v {
					return eng.V("symbol is version %d, asked for %d", ver, v)
				}
				d, err := ref.DecodeLenient(s)
				if err != nil {
					return eng.V("data cannot be read with the announced mask %d: %v", mask, err)
				}
				if string(d.Text) != text {
					return eng.V("data read with the announced mask %d is %s", mask, q(string(d.Text)))
				}
				return eng.K("v%d-%s mask %d", ver, qr.ECName[ec], mask)
			}
			sp := []*eng.Space{
				{Name: "layouts", N: prod(40, 4, k), Chunk: 8, Run: func(i int64) eng.Out {
					c := combo(i, k, 40, 4)
					v, ec := c[1]+1, c[2]
					m, t := textFor(v, ec, c[0])
					s, err := qr.Encode(t, qr.Ver(v), qr.EC[ec], qr.Mode[m])
					if err != nil {
						return eng.V("encoding failed: %v", err)
					}
					return chk(s, ec, v, t)
				}, Desc: func(i int64) string {
					c := combo(i, k, 40, 4)
					return fmt.Sprintf("version %d level %s text %d", c[1]+1, qr.ECName[c[2]], c[0])
				}},
				{Name: "ways to ask for a version", N: prod(k/8, 40, 4, 3), Chunk: 8, Run: func(i int64) eng.Out {
					c := combo(i, k/8, 40, 4, 3)
					v, ec := c[1]+1, c[2]
					m, t := textFor(v, ec, c[0]+c[3])
					s, err := qr.Encode(t, verOpts(c[3]+1, v, ec, m)...)
					if err != nil {
						return eng.V("encoding failed: %v", err)
					}
					return chk(s, ec, v, t)
				}, Desc: func(i int64) string {
					c := combo(i, k/8, 40, 4, 3)
					return fmt.Sprintf("version %d level %s text %d, %s", c[1]+1, qr.ECName[c[2]], c[0]+c[3], verWays[c[3]+1])
				}},
				{Name: "class-words", N: 4 * wordCount(len(classes), cls), Run: func(i int64) eng.Out {
					t := classWord(i / 4)
					s, err := qr.Encode(t, qr.EC[i%4])
					if err != nil {
						return eng.V("encoding failed: %v", err)
					}
					return chk(s, int(i%4), 0, t)
				}, Desc: func(i int64) string { return fmt.Sprintf("text %q level %s", classWord(i/4), qr.ECName[i%4]) }},
			}
			lens := lenCases(tier == "thorough", 77)
			if tier != "thorough" {
				var l2 []lenCase
				for j := 0; j < len(lens); j += 17 {
					l2 = append(l2, lens[j])
				}
				lens = l2
			}
			return append(sp, list("auto-version", lens, func(c lenCase) eng.Out {
				t := fill(c.m, c.n, c.salt)
				s, err := qr.Encode(t, qr.EC[c.ec])
				if err != nil {
					return eng.V("encoding failed: %v", err)
				}
				return chk(s, c.ec, 0, t)
			}, func(c lenCase) string {
				return fmt.Sprintf("%s level %s length %d", c.m, qr.ECName[c.ec], c.n)
			}))
		},
	})
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C03", Level: "fault_enumeration",
		Rule:        "codewords: one encode per case, the placed codeword sequence compared with the reference block structure, all syndromes, pads and remainder bits checked; damage: the full correction budget of every block at once is destroyed in a cyclic window at every start position (modules of the real symbol flipped) and the symbol is read back by an independent corrector. Non-trivial: all codewords of a symbol were compared, or at least one codeword was damaged.",
		Assumptions: []string{"block tables and Reed-Solomon code of mc/ref are those of ISO/IEC 18004 (cross-checked against the data capacities of the standard)"},
		Bounds: map[string]string{
			"quick":    "40x4 layouts x 4 modes x 6 lengths and x 3 other ways to ask for the version; x 8 repetitive texts of 4 lengths; every 5th of the automatic-version lengths; every byte value at every position of a version 1 message; damage windows at every start position of all 160 layouts, patterns 0xFF and single bits",
			"thorough": "every length of every mode and level with automatic version; damage with 8 patterns",
		},
		Spaces: func(tier string) []*eng.Space {
			th := tier == "thorough"
			exact := func(t string, m ref.Mode, ec int, v int, opts ...qrcode.EncodeOption) eng.Out {
				s, err := qr.Encode(t, opts...)
				if err != nil {
					return eng.V("encoding failed: %v", err)
				}
				ver := (s.N - 17) / 4
				_, mask, err := ref.ReadFormat(s, 0)
				if err != nil {
					return eng.V("%v", err)
				}
				cw, rest := ref.Codewords(s, mask)
				data, err := ref.DataBytes(t, m, ver, ec)
				if err != nil {
					return eng.V("does not fit version %d: %v", ver, err)
				}
				want := ref.Interleave(data, ver, ec)
				for i := range want {
					if cw[i] != want[i] {
						b, o := ref.IndexOf(ver, ec)
						return eng.V("v%d-%s: codeword %d (block %d, offset %d) is %#02x, want %#02x", ver, qr.ECName[ec], i, b[i], o[i], cw[i], want[i])
					}
				}
				for i, b := range rest {
					if b {
						return eng.V("v%d: remainder bit %d is set", ver, i)
					}
				}
				return eng.Out{Key: fmt.Sprintf("v%d-%s %x", ver, qr.ECName[ec], hashBytes(cw)), Extra: map[string]int64{"codewords_compared": int64(len(cw))}}
			}
			lens := lenCases(th, 5)
			if !th {
				var l2 []lenCase
				for j := 0; j < len(lens); j += 5 {
					l2 = append(l2, lens[j])
				}
				lens = l2
			}
			pats := []byte{0xFF, 0x01}
			if th {
				pats = []byte{0xFF, 0x01, 0x02, 0x08, 0x10, 0x40, 0x80, 0x5A}
			}
			frac := []int{0, 1, -2, 3, -1, 2} // lengths: 0, 1, c/2, c/3, c, c-1
			length := func(c, k int) int {
				switch frac[k] {
				case -2:
					return c / 2
				case 3:
					return c / 3
				case -1:
					return c
				case 2:
					return c - 1
				}
				return frac[k]
			}
			return []*eng.Space{
				{Name: "layouts", N: prod(6, 40, 4, 4), Chunk: 8, Run: func(i int64) eng.Out {
					c := combo(i, 6, 40, 4, 4)
					v, ec, m := c[1]+1, c[2], ref.Mode(c[3])
					t := fill(m, length(ref.Cap(v, ec, m), c[0]), v*16+c[0])
					return exact(t, m, ec, v, qr.Ver(v), qr.EC[ec], qr.Mode[m])
				}, Desc: func(i int64) string {
					c := combo(i, 6, 40, 4, 4)
					v, ec, m := c[1]+1, c[2], ref.Mode(c[3])
					return fmt.Sprintf("version %d level %s mode %s length %d", v, qr.ECName[ec], m, length(ref.Cap(v, ec, m), c[0]))
				}},
				{Name: "ways to ask for a version", N: prod(3, 40, 4, 4), Chunk: 8, Run: func(i int64) eng.Out {
					c := combo(i, 3, 40, 4, 4)
					v, ec, m := c[1]+1, c[2], ref.Mode(c[3])
					t := fill(m, length(ref.Cap(v, ec, m), (c[0]*2+v)%6), v*16+c[0])
					return exact(t, m, ec, v, verOpts(c[0]+1, v, ec, m)...)
				}, Desc: func(i int64) string {
					c := combo(i, 3, 40, 4, 4)
					v, ec, m := c[1]+1, c[2], ref.Mode(c[3])
					return fmt.Sprintf("version %d level %s mode %s length %d, %s", v, qr.ECName[ec], m, length(ref.Cap(v, ec, m), (c[0]*2+v)%6), verWays[c[0]+1])
				}},
				list("lengths", lens, func(c lenCase) eng.Out {
					return exact(fill(c.m, c.n, c.salt), c.m, c.ec, 0, qr.EC[c.ec], qr.Mode[c.m])
				}, func(c lenCase) string { return fmt.Sprintf("%s level %s length %d", c.m, qr.ECName[c.ec], c.n) }),
				{Name: "repetitive texts", N: prod(len(repeats), 4, 40, 4), Chunk: 8, Run: func(i int64) eng.Out {
					c := combo(i, len(repeats), 4, 40, 4)
					v, ec := c[2]+1, c[3]
					t := repeated(c[0], ref.Cap(v, ec, ref.Byte)*(c[1]+1)/4-c[1]%2)
					return exact(t, ref.Byte, ec, v, qr.Ver(v), qr.EC[ec], qr.Mode[ref.Byte])
				}, Desc: func(i int64) string {
					c := combo(i, len(repeats), 4, 40, 4)
					return fmt.Sprintf("version %d level %s, %d quarters of the capacity with %q repeated", c[2]+1, qr.ECName[c[3]], c[1]+1, repeats[c[0]])
				}},
				{Name: "byte-values", N: 17 * 256, Run: func(i int64) eng.Out {
					b := make([]byte, 17)
					b[i/256] = byte(i)
					return exact(string(b), ref.Byte, ref.L, 1, qr.Ver(1), qr.EC[ref.L], qr.Mode[ref.Byte])
				}, Desc: func(i int64) string { return fmt.Sprintf("17 zero bytes with %#x at %d", i%256, i/256) }},
				{Name: "damage", N: prod(40, 4, len(pats)), Chunk: 1, Run: func(i int64) eng.Out {
					c := combo(i, 40, len(pats), 4)
					return damage(40-c[0], c[2], pats[c[1]])
				}, Desc: func(i int64) string {
					c := combo(i, 40, len(pats), 4)
					return fmt.Sprintf("version %d level %s, every damage window, pattern %#x", 40-c[0], qr.ECName[c[2]], pats[c[1]])
				}},
			}
		},
	})
}

// damage flips modules of the real symbol so that in every block a window of floor(EC/2) codewords is
// destroyed, for every window position, and reads the symbol back.
func damage(v, ec int, pat byte) eng.Out {
	t := fill(ref.Byte, ref.Cap(v, ec, ref.Byte)-v%3, v*9+ec)
	s, err := qr.Encode(t, qr.Ver(v), qr.EC[ec])
	if err != nil {
		return eng.V("encoding failed: %v", err)
	}
	l := ref.GetLayout(v)
	blk, off := ref.IndexOf(v, ec)
	bl := ref.Blocks(v, ec)
	maxLen := bl[len(bl)-1].Data + bl[0].EC
	budget := bl[0].EC / 2
	n := int64(0)
	for start := 0; start < maxLen; start++ {
		d := s.Clone()
		for k := range blk {
			bn := bl[blk[k]].Data + bl[blk[k]].EC
			w := (off[k] - start%bn + bn) % bn
			if w >= budget {
				continue
			}
			x := pat
			if pat == 0x01 {
				x = 1 << uint((w+start)%8)
			}
			for bit := 0; bit < 8; bit++ {
				if x>>(7-uint(bit))&1 == 1 {
					p := l.Order[k*8+bit]
					d.B[p] = !d.B[p]
				}
			}
		}
		dec, err := ref.DecodeLenient(d)
		if err != nil {
			return eng.V("window at %d of %d codewords per block: %v", start, budget, err)
		}
		if string(dec.Text) != t {
			return eng.V("window at %d of %d codewords per block: reads back wrongly", start, budget)
		}
		n++
	}
	return eng.Out{Key: fmt.Sprintf("v%d-%s %d windows of %d codewords in %d blocks, pattern %#x", v, qr.ECName[ec], n, budget, len(bl), pat),
		Extra: map[string]int64{"damaged_symbols_read": n}}
}
