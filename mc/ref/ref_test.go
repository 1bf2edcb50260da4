package ref

import (
	"bytes"
	"testing"
)

// The reference encoder and the reference reader are written separately; they must agree.
func TestSelf(t *testing.T) {
	for v := 1; v <= 40; v++ {
		for ec := 0; ec < 4; ec++ {
			for m := Numeric; m <= Kanji; m++ {
				n := Cap(v, ec, m)
				var text string
				for i := 0; i < n; i++ {
					switch m {
					case Numeric:
						text += string(rune('0' + i%10))
					case Alnum:
						text += string(AlnumSet[i%45])
					case Byte:
						text += string([]byte{byte(i*7 + 1)})
					case Kanji:
						text += string(kanjiRunes[i*3%len(kanjiRunes)])
					}
				}
				s, err := Encode(text, m, v, ec, (v+ec)%8)
				if err != nil {
					t.Fatal(v, ec, m, err)
				}
				d, err := DecodeStrict(s)
				if err != nil || !bytes.Equal(d.Text, []byte(text)) || d.Ver != v || d.EC != ec || d.Mode != m {
					t.Fatal(v, ec, m, err)
				}
				// the full correction budget in every block
				bl := Blocks(v, ec)
				for b := range d.Blocks {
					k := bl[b].EC / 2
					c := append([]byte(nil), d.Blocks[b]...)
					for i := 0; i < k; i++ {
						c[(i*5+b)%len(c)] ^= byte(i + 1)
					}
					if !RSCorrect(c, bl[b].EC) || !bytes.Equal(c, d.Blocks[b]) {
						t.Fatal("correction", v, ec, b)
					}
				}
			}
		}
	}
}

// Known values of the standard.
func TestKnown(t *testing.T) {
	for _, c := range []struct{ v, ec, data, blocks int }{
		{1, L, 19, 1}, {1, M, 16, 1}, {1, Q, 13, 1}, {1, H, 9, 1}, {7, H, 66, 5}, {40, L, 2956, 25}, {40, H, 1276, 81},
	} {
		if DataCodewords(c.v, c.ec) != c.data || len(Blocks(c.v, c.ec)) != c.blocks {
			t.Error(c, DataCodewords(c.v, c.ec), len(Blocks(c.v, c.ec)))
		}
	}
	for _, c := range []struct{ v, ec, n, a, b, k int }{
		{40, L, 7089, 4296, 2953, 1817}, {40, H, 3057, 1852, 1273, 784}, {1, L, 41, 25, 17, 10}, {10, M, 513, 311, 213, 131},
	} {
		if Cap(c.v, c.ec, Numeric) != c.n || Cap(c.v, c.ec, Alnum) != c.a || Cap(c.v, c.ec, Byte) != c.b || Cap(c.v, c.ec, Kanji) != c.k {
			t.Error(c)
		}
	}
	if FormatBits(L, 4) != 0b110011000101111 || FormatBits(Q, 5) != 0b010000110000011 || VersionBits(7) != 0b000111110010010100 {
		t.Error("BCH")
	}
	if len(kanjiRunes) != 6356 {
		t.Error(len(kanjiRunes))
	}
}
