package ref

import (
	"fmt"
	"sync"
)

// Kind is the role of a module.
type Kind byte

// Module roles.
const (
	KData Kind = iota
	KFinder
	KSeparator
	KTiming
	KAlign
	KFormat
	KVersion
	KDark
)

func (k Kind) String() string {
	return [...]string{"data", "finder", "separator", "timing", "alignment", "format", "version", "dark"}[k]
}

// Symbol is a square grid of modules, row-major, true = dark.
type Symbol struct {
	N int
	B []bool
}

// NewSymbol makes an all-light symbol.
func NewSymbol(n int) *Symbol { return &Symbol{n, make([]bool, n*n)} }

// At returns the module in column x of row y.
func (s *Symbol) At(x, y int) bool { return s.B[y*s.N+x] }

// Set sets a module.
func (s *Symbol) Set(x, y int, v bool) { s.B[y*s.N+x] = v }

// Clone copies.
func (s *Symbol) Clone() *Symbol { return &Symbol{s.N, append([]bool(nil), s.B...)} }

// Diff counts differing modules and describes the first.
func (s *Symbol) Diff(o *Symbol) (int, string) {
	if s.N != o.N {
		return -1, fmt.Sprintf("size %d vs %d", s.N, o.N)
	}
	n, first := 0, ""
	for i := range s.B {
		if s.B[i] != o.B[i] {
			if n == 0 {
				first = fmt.Sprintf("first at x=%d y=%d: %v vs %v", i%s.N, i/s.N, s.B[i], o.B[i])
			}
			n++
		}
	}
	return n, first
}

// Layout is the function-pattern map of a version.
type Layout struct {
	Ver, N int
	Kind   []Kind // row-major
	Dark   []bool // value of the fixed patterns
	Order  []int  // data modules in placement order (index y*N+x)
	Fmt    [2][15]int
	VerPos [2][18]int
}

var (
	layouts   [41]*Layout
	layoutMux sync.Mutex
)

// GetLayout returns the layout of ver.
func GetLayout(ver int) *Layout {
	layoutMux.Lock()
	defer layoutMux.Unlock()
	if layouts[ver] == nil {
		layouts[ver] = mkLayout(ver)
	}
	return layouts[ver]
}

func mkLayout(ver int) *Layout {
	n := Size(ver)
	l := &Layout{Ver: ver, N: n, Kind: make([]Kind, n*n), Dark: make([]bool, n*n)}
	set := func(x, y int, k Kind, d bool) {
		if x < 0 || y < 0 || x >= n || y >= n {
			return
		}
		l.Kind[y*n+x], l.Dark[y*n+x] = k, d
	}
	// timing
	for i := 0; i < n; i++ {
		set(i, 6, KTiming, i%2 == 0)
		set(6, i, KTiming, i%2 == 0)
	}
	// finders and separators
	for _, c := range [][2]int{{3, 3}, {n - 4, 3}, {3, n - 4}} {
		for dy := -4; dy <= 4; dy++ {
			for dx := -4; dx <= 4; dx++ {
				r := cheb(dx, dy)
				if r == 4 {
					set(c[0]+dx, c[1]+dy, KSeparator, false)
				} else {
					set(c[0]+dx, c[1]+dy, KFinder, r != 2)
				}
			}
		}
	}
	// alignment
	al := Align(ver)
	for _, cy := range al {
		for _, cx := range al {
			if cx == 6 && cy == 6 || cx == 6 && cy == n-7 || cx == n-7 && cy == 6 {
				continue
			}
			for dy := -2; dy <= 2; dy++ {
				for dx := -2; dx <= 2; dx++ {
					set(cx+dx, cy+dy, KAlign, cheb(dx, dy) != 1)
				}
			}
		}
	}
	// format, bit 0 = least significant
	for i := 0; i < 15; i++ {
		var x, y int
		switch { // around the top left finder
		case i < 6:
			x, y = 8, i
		case i == 6:
			x, y = 8, 7
		case i == 7:
			x, y = 8, 8
		case i == 8:
			x, y = 7, 8
		default:
			x, y = 14-i, 8
		}
		set(x, y, KFormat, false)
		l.Fmt[0][i] = y*n + x
		if i < 8 {
			x, y = n-1-i, 8
		} else {
			x, y = 8, n-15+i
		}
		set(x, y, KFormat, false)
		l.Fmt[1][i] = y*n + x
	}
	set(8, n-8, KDark, true)
	if ver >= 7 {
		for i := 0; i < 18; i++ {
			a, b := n-11+i%3, i/3
			set(a, b, KVersion, false)
			set(b, a, KVersion, false)
			l.VerPos[0][i] = b*n + a
			l.VerPos[1][i] = a*n + b
		}
	}
	// zigzag
	for right := n - 1; right >= 1; right -= 2 {
		if right == 6 {
			right = 5
		}
		up := (right+1)&2 == 0
		for v := 0; v < n; v++ {
			y := v
			if up {
				y = n - 1 - v
			}
			for j := 0; j < 2; j++ {
				if p := y*n + right - j; l.Kind[p] == KData {
					l.Order = append(l.Order, p)
				}
			}
		}
	}
	if len(l.Order) != RawModules(ver) {
		panic(fmt.Sprintf("layout of version %d has %d data modules, want %d", ver, len(l.Order), RawModules(ver)))
	}
	return l
}

func cheb(a, b int) int {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	if a > b {
		return a
	}
	return b
}

var ecIndicator = [4]int{1, 0, 3, 2}

// FormatBits is the 15-bit masked format information.
func FormatBits(ec, mask int) int {
	d := ecIndicator[ec]<<3 | mask
	rem := d
	for i := 0; i < 10; i++ {
		rem = rem<<1 ^ (rem>>9)*0x537
	}
	return (d<<10 | rem) ^ 0x5412
}

// VersionBits is the 18-bit version information.
func VersionBits(ver int) int {
	rem := ver
	for i := 0; i < 12; i++ {
		rem = rem<<1 ^ (rem>>11)*0x1F25
	}
	return ver<<12 | rem
}

// MaskBit is the mask condition of pattern m at column x (j) and row y (i).
func MaskBit(m, x, y int) bool {
	switch m {
	case 0:
		return (y+x)%2 == 0
	case 1:
		return y%2 == 0
	case 2:
		return x%3 == 0
	case 3:
		return (y+x)%3 == 0
	case 4:
		return (y/2+x/3)%2 == 0
	case 5:
		return y*x%2+y*x%3 == 0
	case 6:
		return (y*x%2+y*x%3)%2 == 0
	}
	return ((y+x)%2+y*x%3)%2 == 0
}

// Base draws all function patterns, with format and version information.
func Base(ver, ec, mask int) *Symbol {
	l := GetLayout(ver)
	s := NewSymbol(l.N)
	copy(s.B, l.Dark)
	f := FormatBits(ec, mask)
	for i := 0; i < 15; i++ {
		s.B[l.Fmt[0][i]] = f>>uint(i)&1 == 1
		s.B[l.Fmt[1][i]] = f>>uint(i)&1 == 1
	}
	if ver >= 7 {
		v := VersionBits(ver)
		for i := 0; i < 18; i++ {
			s.B[l.VerPos[0][i]] = v>>uint(i)&1 == 1
			s.B[l.VerPos[1][i]] = v>>uint(i)&1 == 1
		}
	}
	return s
}

type bits struct{ b []bool }

func (b *bits) put(v, n int) {
	for i := n - 1; i >= 0; i-- {
		b.b = append(b.b, v>>uint(i)&1 == 1)
	}
}

// DataBytes is the padded data codeword sequence of a single-segment message.
func DataBytes(text string, m Mode, ver, ec int) ([]byte, error) {
	var b bits
	count := len(text)
	if m == Kanji {
		count = len([]rune(text))
	}
	if count >= 1<<uint(m.CountBits(ver)) {
		return nil, fmt.Errorf("count %d does not fit", count)
	}
	b.put(m.Indicator(), 4)
	b.put(count, m.CountBits(ver))
	switch m {
	case Numeric:
		for i := 0; i < len(text); i += 3 {
			v, k := 0, 0
			for ; k < 3 && i+k < len(text); k++ {
				v = v*10 + int(text[i+k]-'0')
			}
			b.put(v, []int{0, 4, 7, 10}[k])
		}
	case Alnum:
		for i := 0; i < len(text); i += 2 {
			v := alnumIdx[text[i]]
			if i+1 < len(text) {
				b.put(v*45+alnumIdx[text[i+1]], 11)
			} else {
				b.put(v, 6)
			}
		}
	case Byte:
		for i := 0; i < len(text); i++ {
			b.put(int(text[i]), 8)
		}
	case Kanji:
		for _, r := range text {
			c := runeToSjis[r]
			if c >= 0xE040 {
				c -= 0xC140
			} else {
				c -= 0x8140
			}
			b.put(c>>8*0xC0+c&0xFF, 13)
		}
	}
	capBits := DataCodewords(ver, ec) * 8
	if len(b.b) > capBits {
		return nil, fmt.Errorf("%d bits > %d", len(b.b), capBits)
	}
	for i := 0; i < 4 && len(b.b) < capBits; i++ {
		b.b = append(b.b, false)
	}
	for len(b.b)%8 != 0 {
		b.b = append(b.b, false)
	}
	out := make([]byte, len(b.b)/8)
	for i, v := range b.b {
		if v {
			out[i/8] |= 0x80 >> uint(i%8)
		}
	}
	for p := 0; len(out) < capBits/8; p++ {
		out = append(out, []byte{0xEC, 0x11}[p%2])
	}
	return out, nil
}

var alnumIdx [256]int

func init() {
	for i := 0; i < len(AlnumSet); i++ {
		alnumIdx[AlnumSet[i]] = i
	}
}

// Interleave turns data codewords into the final codeword sequence.
func Interleave(data []byte, ver, ec int) []byte {
	bl := Blocks(ver, ec)
	var ds, es [][]byte
	p, maxd := 0, 0
	for _, b := range bl {
		d := data[p : p+b.Data]
		p += b.Data
		ds = append(ds, d)
		es = append(es, RSEncode(d, b.EC))
		if b.Data > maxd {
			maxd = b.Data
		}
	}
	var out []byte
	for i := 0; i < maxd; i++ {
		for _, d := range ds {
			if i < len(d) {
				out = append(out, d[i])
			}
		}
	}
	for i := 0; i < bl[0].EC; i++ {
		for _, e := range es {
			out = append(out, e[i])
		}
	}
	return out
}

// Draw places codewords under a mask.
func Draw(cw []byte, ver, ec, mask int) *Symbol {
	l := GetLayout(ver)
	s := Base(ver, ec, mask)
	for i, p := range l.Order {
		v := false
		if i < len(cw)*8 {
			v = cw[i/8]>>(7-uint(i%8))&1 == 1
		}
		s.B[p] = v != MaskBit(mask, p%l.N, p/l.N)
	}
	return s
}

// Encode is the complete reference encoder with a given mask.
func Encode(text string, m Mode, ver, ec, mask int) (*Symbol, error) {
	d, err := DataBytes(text, m, ver, ec)
	if err != nil {
		return nil, err
	}
	return Draw(Interleave(d, ver, ec), ver, ec, mask), nil
}

// PenaltyParts are the four documented penalty rules.
func PenaltyParts(s *Symbol) (r [4]int) {
	n := s.N
	line := make([]bool, n)
	p1 := []bool{true, false, true, true, true, false, true, false, false, false, false}
	p2 := []bool{false, false, false, false, true, false, true, true, true, false, true}
	match := func(i int, p []bool) bool {
		for k, v := range p {
			if line[i+k] != v {
				return false
			}
		}
		return true
	}
	for dir := 0; dir < 2; dir++ {
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				if dir == 0 {
					line[b] = s.At(b, a)
				} else {
					line[b] = s.At(a, b)
				}
			}
			run := 0
			for i := 0; i < n; i++ {
				if i > 0 && line[i] == line[i-1] {
					run++
				} else {
					run = 1
				}
				if run == 5 {
					r[0] += 3
				} else if run > 5 {
					r[0]++
				}
			}
			for i := 0; i+11 <= n; i++ {
				if match(i, p1) {
					r[2] += 40
				}
				if match(i, p2) {
					r[2] += 40
				}
			}
		}
	}
	dark := 0
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			v := s.At(x, y)
			if v {
				dark++
			}
			if x+1 < n && y+1 < n && s.At(x+1, y) == v && s.At(x, y+1) == v && s.At(x+1, y+1) == v {
				r[1] += 3
			}
		}
	}
	// previous and next multiple of five of the dark percentage
	prev := dark * 20 / (n * n) * 5
	next := prev + 5
	if dark*20%(n*n) == 0 { // exact multiple: see RATIO note in DESIGN.md
		next = prev
		prev -= 5
	}
	a, b := prev-50, next-50
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	if b < a {
		a = b
	}
	r[3] = a / 5 * 10
	return r
}

// Penalty is the total penalty.
func Penalty(s *Symbol) int {
	r := PenaltyParts(s)
	return r[0] + r[1] + r[2] + r[3]
}

// PenaltyRange is the total penalty under the two readings of rule 4 for a dark proportion that is an
// exact multiple of five percent; both bounds are equal otherwise.
func PenaltyRange(s *Symbol) (lo, hi int) {
	p := Penalty(s)
	n2 := s.N * s.N
	dark := 0
	for _, v := range s.B {
		if v {
			dark++
		}
	}
	if dark*20%n2 != 0 {
		return p, p
	}
	r := PenaltyParts(s)
	base := r[0] + r[1] + r[2]
	pc := dark * 20 / n2 // in steps of five percent
	d := pc - 10
	if d < 0 {
		d = -d
	}
	lo, hi = base+d*10, base+d*10
	if d > 0 {
		lo -= 10
	}
	return
}
