package ref

import (
	"fmt"
	"strings"
)

// Decoded is what a strict reader finds in a symbol.
type Decoded struct {
	Ver, EC, Mask int
	Mode          Mode
	Count         int
	Text          []byte
	Raw           []byte   // codewords in placement order
	Blocks        [][]byte // de-interleaved: data then EC
	Data          []byte   // all data codewords
	Remainder     []bool
	PadAt         int // bit offset of the end of the segment
}

// ReadFormat reads one copy (0: top left, 1: split).
func ReadFormat(s *Symbol, cp int) (ec, mask int, err error) {
	l := GetLayout((s.N - 17) / 4)
	v := 0
	for i := 0; i < 15; i++ {
		if s.B[l.Fmt[cp][i]] {
			v |= 1 << uint(i)
		}
	}
	for ec = 0; ec < 4; ec++ {
		for mask = 0; mask < 8; mask++ {
			if FormatBits(ec, mask) == v {
				return ec, mask, nil
			}
		}
	}
	return 0, 0, fmt.Errorf("format information copy %d is %015b, not a codeword", cp, v)
}

// ReadVersion reads one copy of the version information.
func ReadVersion(s *Symbol, cp int) int {
	l := GetLayout((s.N - 17) / 4)
	v := 0
	for i := 0; i < 18; i++ {
		if s.B[l.VerPos[cp][i]] {
			v |= 1 << uint(i)
		}
	}
	return v
}

// CheckFunction verifies every function pattern and both copies of format and version information.
func CheckFunction(s *Symbol) (ver, ec, mask int, err error) {
	ver = (s.N - 17) / 4
	if s.N < 21 || s.N > 177 || (s.N-17)%4 != 0 {
		return 0, 0, 0, fmt.Errorf("dimension %d is not a QR size", s.N)
	}
	l := GetLayout(ver)
	for p, k := range l.Kind {
		if k == KData || k == KFormat || k == KVersion {
			continue
		}
		if s.B[p] != l.Dark[p] {
			return 0, 0, 0, fmt.Errorf("version %d: %s module at x=%d y=%d is dark=%v", ver, k, p%s.N, p/s.N, s.B[p])
		}
	}
	if ec, mask, err = ReadFormat(s, 0); err != nil {
		return
	}
	e2, m2, err := ReadFormat(s, 1)
	if err != nil {
		return ver, ec, mask, err
	}
	if e2 != ec || m2 != mask {
		return ver, ec, mask, fmt.Errorf("format copies disagree: ec %d mask %d vs ec %d mask %d", ec, mask, e2, m2)
	}
	if ver >= 7 {
		for c := 0; c < 2; c++ {
			if v := ReadVersion(s, c); v != VersionBits(ver) {
				return ver, ec, mask, fmt.Errorf("version information copy %d is %018b, want %018b", c, v, VersionBits(ver))
			}
		}
	}
	return ver, ec, mask, nil
}

// Codewords reads the codewords and remainder bits out of the data region.
func Codewords(s *Symbol, mask int) (cw []byte, rest []bool) {
	ver := (s.N - 17) / 4
	l := GetLayout(ver)
	cw = make([]byte, RawCodewords(ver))
	for i, p := range l.Order {
		v := s.B[p] != MaskBit(mask, p%s.N, p/s.N)
		if i/8 >= len(cw) {
			rest = append(rest, v)
		} else if v {
			cw[i/8] |= 0x80 >> uint(i%8)
		}
	}
	return
}

// Deinterleave splits a codeword sequence into blocks (data then EC each).
func Deinterleave(cw []byte, ver, ec int) [][]byte {
	bl := Blocks(ver, ec)
	out := make([][]byte, len(bl))
	p, maxd := 0, 0
	for _, b := range bl {
		if b.Data > maxd {
			maxd = b.Data
		}
	}
	for i := 0; i < maxd; i++ {
		for j, b := range bl {
			if i < b.Data {
				out[j] = append(out[j], cw[p])
				p++
			}
		}
	}
	for i := 0; i < bl[0].EC; i++ {
		for j := range bl {
			out[j] = append(out[j], cw[p])
			p++
		}
	}
	return out
}

// IndexOf maps each codeword of the placement order to its block and offset.
func IndexOf(ver, ec int) (block, off []int) {
	bl := Blocks(ver, ec)
	maxd := 0
	for _, b := range bl {
		if b.Data > maxd {
			maxd = b.Data
		}
	}
	for i := 0; i < maxd; i++ {
		for j, b := range bl {
			if i < b.Data {
				block, off = append(block, j), append(off, i)
			}
		}
	}
	for i := 0; i < bl[0].EC; i++ {
		for j, b := range bl {
			block, off = append(block, j), append(off, b.Data+i)
		}
	}
	return
}

type reader struct {
	d   []byte
	pos int
}

func (r *reader) left() int { return len(r.d)*8 - r.pos }
func (r *reader) get(n int) (int, error) {
	if r.left() < n {
		return 0, fmt.Errorf("data ends at bit %d, %d more needed", r.pos, n)
	}
	v := 0
	for i := 0; i < n; i++ {
		v = v<<1 | int(r.d[r.pos/8]>>(7-uint(r.pos%8))&1)
		r.pos++
	}
	return v, nil
}

// ParseData parses data codewords as a reader does. It requires exactly the segments to be followed
// by a terminator, zero bits to the byte boundary and the two alternating pad codewords.
func ParseData(data []byte, ver int) (dec Decoded, err error) {
	r := &reader{d: data}
	seg := 0
	for {
		if r.left() < 4 {
			break
		}
		ind, _ := r.get(4)
		if ind == 0 {
			r.pos -= 4
			break
		}
		var m Mode
		switch ind {
		case 1:
			m = Numeric
		case 2:
			m = Alnum
		case 4:
			m = Byte
		case 8:
			m = Kanji
		default:
			return dec, fmt.Errorf("mode indicator %04b at bit %d", ind, r.pos-4)
		}
		n, err := r.get(m.CountBits(ver))
		if err != nil {
			return dec, err
		}
		if seg == 0 {
			dec.Mode, dec.Count = m, n
		}
		seg++
		var sb strings.Builder
		switch m {
		case Numeric:
			for n > 0 {
				k := 3
				if n < 3 {
					k = n
				}
				v, err := r.get([]int{0, 4, 7, 10}[k])
				if err != nil {
					return dec, err
				}
				if v >= []int{1, 10, 100, 1000}[k] {
					return dec, fmt.Errorf("numeric group %d of %d digits", v, k)
				}
				fmt.Fprintf(&sb, "%0*d", k, v)
				n -= k
			}
		case Alnum:
			for n > 0 {
				if n >= 2 {
					v, err := r.get(11)
					if err != nil {
						return dec, err
					}
					if v >= 45*45 {
						return dec, fmt.Errorf("alphanumeric pair %d", v)
					}
					sb.WriteByte(AlnumSet[v/45])
					sb.WriteByte(AlnumSet[v%45])
					n -= 2
				} else {
					v, err := r.get(6)
					if err != nil {
						return dec, err
					}
					if v >= 45 {
						return dec, fmt.Errorf("alphanumeric value %d", v)
					}
					sb.WriteByte(AlnumSet[v])
					n--
				}
			}
		case Byte:
			for ; n > 0; n-- {
				v, err := r.get(8)
				if err != nil {
					return dec, err
				}
				sb.WriteByte(byte(v))
			}
		case Kanji:
			for ; n > 0; n-- {
				v, err := r.get(13)
				if err != nil {
					return dec, err
				}
				c := v/0xC0<<8 | v%0xC0
				if c <= 0x9FFC-0x8140 {
					c += 0x8140
				} else {
					c += 0xC140
				}
				u, ok := sjisToRune[c]
				if !ok {
					return dec, fmt.Errorf("kanji value %d is Shift JIS %04X, which is unassigned", v, c)
				}
				sb.WriteRune(u)
			}
		}
		dec.Text = append(dec.Text, sb.String()...)
	}
	if seg != 1 {
		return dec, fmt.Errorf("%d segments", seg)
	}
	dec.PadAt = r.pos
	for i := 0; i < 4 && r.left() > 0; i++ {
		if v, _ := r.get(1); v != 0 {
			return dec, fmt.Errorf("terminator bit at %d is 1", r.pos-1)
		}
	}
	for r.pos%8 != 0 {
		if v, _ := r.get(1); v != 0 {
			return dec, fmt.Errorf("bit %d before the byte boundary is 1", r.pos-1)
		}
	}
	for i := 0; r.left() > 0; i++ {
		v, _ := r.get(8)
		if want := []int{0xEC, 0x11}[i%2]; v != want {
			return dec, fmt.Errorf("pad codeword %d is %#x, want %#x", i, v, want)
		}
	}
	return dec, nil
}

// DecodeStrict reads a symbol allowing no error at all.
func DecodeStrict(s *Symbol) (*Decoded, error) {
	ver, ec, mask, err := CheckFunction(s)
	if err != nil {
		return nil, err
	}
	cw, rest := Codewords(s, mask)
	blocks := Deinterleave(cw, ver, ec)
	bl := Blocks(ver, ec)
	var data []byte
	for i, b := range blocks {
		for j, v := range Syndromes(b, bl[i].EC) {
			if v != 0 {
				return nil, fmt.Errorf("block %d of %d: syndrome %d is not zero", i, len(blocks), j)
			}
		}
		data = append(data, b[:bl[i].Data]...)
	}
	for i, b := range rest {
		if b {
			return nil, fmt.Errorf("remainder bit %d is 1", i)
		}
	}
	dec, err := ParseData(data, ver)
	dec.Ver, dec.EC, dec.Mask, dec.Raw, dec.Blocks, dec.Data, dec.Remainder = ver, ec, mask, cw, blocks, data, rest
	return &dec, err
}

// DecodeLenient reads a symbol as a scanner does: it takes the mask and level from format copy 0
// (exactly), ignores other function patterns and corrects each block.
func DecodeLenient(s *Symbol) (*Decoded, error) {
	ver := (s.N - 17) / 4
	if s.N < 21 || s.N > 177 || (s.N-17)%4 != 0 {
		return nil, fmt.Errorf("dimension %d is not a QR size", s.N)
	}
	ec, mask, err := ReadFormat(s, 0)
	if err != nil {
		if ec, mask, err = ReadFormat(s, 1); err != nil {
			return nil, err
		}
	}
	cw, rest := Codewords(s, mask)
	return DecodeCodewords(cw, rest, ver, ec, mask)
}

// DecodeCodewords corrects and parses a codeword sequence.
func DecodeCodewords(cw []byte, rest []bool, ver, ec, mask int) (*Decoded, error) {
	blocks := Deinterleave(cw, ver, ec)
	bl := Blocks(ver, ec)
	var data []byte
	for i, b := range blocks {
		if !RSCorrect(b, bl[i].EC) {
			return nil, fmt.Errorf("block %d of %d is not correctable", i, len(blocks))
		}
		data = append(data, b[:bl[i].Data]...)
	}
	dec, err := ParseData(data, ver)
	dec.Ver, dec.EC, dec.Mask, dec.Raw, dec.Blocks, dec.Data, dec.Remainder = ver, ec, mask, cw, blocks, data, rest
	return &dec, err
}
