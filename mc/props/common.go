// Package props holds one file of case spaces per property.
package props

import (
	"bytes"
	"fmt"
	"strings"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

var levels = []int{ref.L, ref.M, ref.Q, ref.H}

// fill makes a text of n characters of mode m, varied by salt. Byte texts are not valid in any other
// mode (they start with a lower-case letter when not empty).
func fill(m ref.Mode, n, salt int) string {
	var sb strings.Builder
	x := uint32(salt)*2654435761 + 12345
	k := ref.KanjiRunes()
	for i := 0; i < n; i++ {
		x = x*1664525 + 1013904223
		v := int(x >> 10)
		switch m {
		case ref.Numeric:
			sb.WriteByte(byte('0' + v%10))
		case ref.Alnum:
			if i == 0 {
				sb.WriteByte(ref.AlnumSet[10+v%35])
			} else {
				sb.WriteByte(ref.AlnumSet[v%45])
			}
		case ref.Byte:
			if i == 0 {
				sb.WriteByte(byte('a' + v%26))
			} else {
				sb.WriteByte(byte(v))
			}
		case ref.Kanji:
			sb.WriteRune(k[v%len(k)])
		}
	}
	return sb.String()
}

// q quotes a text, shortened.
func q(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q...(%d bytes)", s[:120], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// symKey is a compact identity of a decoded symbol.
func symKey(d *ref.Decoded) string {
	return fmt.Sprintf("v%d-%s m%d %s n=%d %x", d.Ver, qr.ECName[d.EC], d.Mask, d.Mode, d.Count, hashBytes(d.Raw))
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

func hashSym(s *ref.Symbol) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range s.B {
		v := uint64(0)
		if c {
			v = 1
		}
		h = (h ^ v) * 1099511628211
	}
	return h
}

// roundTrip encodes and reads back strictly.
func roundTrip(text string, asBytes bool, opts ...qrcode.EncodeOption) (*ref.Decoded, eng.Out) {
	var s *ref.Symbol
	var err error
	if asBytes {
		s, err = qr.EncodeBytes([]byte(text), opts...)
	} else {
		s, err = qr.Encode(text, opts...)
	}
	if err != nil {
		return nil, eng.V("encoding failed: %v", err)
	}
	d, err := ref.DecodeStrict(s)
	if err != nil {
		return nil, eng.V("not readable: %v", err)
	}
	if !bytes.Equal(d.Text, []byte(text)) {
		return d, eng.V("reads back as %s instead of %s", q(string(d.Text)), q(text))
	}
	return d, eng.Out{Key: symKey(d)}
}

// combo decodes a mixed-radix index.
func combo(i int64, radix ...int) []int {
	out := make([]int, len(radix))
	for k := len(radix) - 1; k >= 0; k-- {
		out[k] = int(i % int64(radix[k]))
		i /= int64(radix[k])
	}
	return out
}

func prod(radix ...int) int64 {
	n := int64(1)
	for _, r := range radix {
		n *= int64(r)
	}
	return n
}

// words counts the strings over an alphabet of k letters of length 0..max and decodes an index.
func wordCount(k, max int) int64 {
	n, p := int64(0), int64(1)
	for l := 0; l <= max; l++ {
		n += p
		p *= int64(k)
	}
	return n
}

func word(i int64, k int) []int {
	p := int64(1)
	l := 0
	for i >= p {
		i -= p
		p *= int64(k)
		l++
	}
	out := make([]int, l)
	for j := l - 1; j >= 0; j-- {
		out[j] = int(i % int64(k))
		i /= int64(k)
	}
	return out
}

// classes are one representative per class of character that the encoder can tell apart.
var classes = []string{"7", "Q", ":", "q", "世", "们", "あ", "é", "\U0001F600", "\xff"}

func classWord(i int64) string {
	var sb strings.Builder
	for _, c := range word(i, len(classes)) {
		sb.WriteString(classes[c])
	}
	return sb.String()
}

// list makes a space over explicit items.
func list[T any](name string, items []T, run func(T) eng.Out, desc func(T) string) *eng.Space {
	return &eng.Space{Name: name, N: int64(len(items)), Run: func(i int64) eng.Out { return run(items[i]) },
		Desc: func(i int64) string { return desc(items[i]) }}
}

// outside marks spaces whose cases run other processes, which the machine can disturb: a violation counts when it repeats.
func outside(sp []*eng.Space) []*eng.Space {
	for _, s := range sp {
		s.Env = true
	}
	return sp
}
