// Package ref is an independent, from-first-principles model of a QR Code (ISO/IEC 18004)
// symbol: tables, Reed-Solomon code, layout, masking, penalty, and a strict decoder. It shares no
// code and no tables with /repo; it is the oracle of the checks.
package ref

import (
	_ "embed"
	"fmt"
	"strings"
)

// EC levels, in the order L, M, Q, H.
const (
	L = iota
	M
	Q
	H
)

var eccPerBlock = [4][41]int{
	{-1, 7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{-1, 10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28},
	{-1, 13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{-1, 17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
}

var numBlocks = [4][41]int{
	{-1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25},
	{-1, 1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49},
	{-1, 1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68},
	{-1, 1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81},
}

// Size is the number of modules per side.
func Size(ver int) int { return 17 + 4*ver }

// RawModules is the number of modules available for data, EC and remainder bits.
func RawModules(ver int) int {
	r := (16*ver+128)*ver + 64
	if ver >= 2 {
		n := ver/7 + 2
		r -= (25*n-10)*n - 55
		if ver >= 7 {
			r -= 36
		}
	}
	return r
}

// RawCodewords is the number of codewords (data and EC).
func RawCodewords(ver int) int { return RawModules(ver) / 8 }

// DataCodewords is the number of data codewords.
func DataCodewords(ver, ec int) int {
	return RawCodewords(ver) - eccPerBlock[ec][ver]*numBlocks[ec][ver]
}

// Block is one Reed-Solomon block's shape.
type Block struct{ Data, EC int }

// Blocks lists the blocks in order.
func Blocks(ver, ec int) []Block {
	nb, ecc := numBlocks[ec][ver], eccPerBlock[ec][ver]
	raw := RawCodewords(ver)
	short := raw / nb
	numShort := nb - raw%nb
	out := make([]Block, nb)
	for i := range out {
		out[i] = Block{short - ecc, ecc}
		if i >= numShort {
			out[i].Data++
		}
	}
	return out
}

// Align lists the alignment pattern coordinates on one axis.
func Align(ver int) []int {
	if ver == 1 {
		return nil
	}
	n := ver/7 + 2
	step := (ver*8 + n*3 + 5) / (n*4 - 4) * 2
	out := make([]int, n)
	out[0] = 6
	for i, p := n-1, Size(ver)-7; i >= 1; i, p = i-1, p-step {
		out[i] = p
	}
	return out
}

// Mode is a segment mode.
type Mode int

// Modes.
const (
	Numeric Mode = iota
	Alnum
	Byte
	Kanji
)

func (m Mode) String() string { return [...]string{"numeric", "alphanumeric", "byte", "kanji"}[m] }

// Indicator is the 4-bit mode indicator.
func (m Mode) Indicator() int { return [...]int{1, 2, 4, 8}[m] }

// CountBits is the width of the character count indicator.
func (m Mode) CountBits(ver int) int {
	t := [...][3]int{{10, 12, 14}, {9, 11, 13}, {8, 16, 16}, {8, 10, 12}}[m]
	switch {
	case ver <= 9:
		return t[0]
	case ver <= 26:
		return t[1]
	}
	return t[2]
}

// DataBits is the number of payload bits of n characters.
func (m Mode) DataBits(n int) int {
	switch m {
	case Numeric:
		return n/3*10 + [...]int{0, 4, 7}[n%3]
	case Alnum:
		return n/2*11 + n%2*6
	case Byte:
		return 8 * n
	}
	return 13 * n
}

// SegBits is the total number of bits of a segment.
func (m Mode) SegBits(ver, n int) int { return 4 + m.CountBits(ver) + m.DataBits(n) }

// Cap is the largest number of characters that fit.
func Cap(ver, ec int, m Mode) int {
	avail := DataCodewords(ver, ec) * 8
	max := 1<<m.CountBits(ver) - 1
	lo, hi := 0, max
	for lo < hi {
		mid := (lo + hi + 1) / 2
		if m.SegBits(ver, mid) <= avail {
			lo = mid
		} else {
			hi = mid - 1
		}
	}
	return lo
}

// MinVersion is the smallest version that holds n characters, or 0.
func MinVersion(ec int, m Mode, n int) int {
	for v := 1; v <= 40; v++ {
		if n <= Cap(v, ec, m) {
			return v
		}
	}
	return 0
}

//go:embed sjis.txt
var sjisText string

var (
	sjisToRune = map[int]rune{}
	runeToSjis = map[rune]int{}
	kanjiRunes []rune
)

func init() {
	for _, l := range strings.Split(strings.TrimSpace(sjisText), "\n") {
		var c, u int
		if _, err := fmt.Sscanf(l, "%X %X", &c, &u); err != nil {
			panic(err)
		}
		sjisToRune[c] = rune(u)
		runeToSjis[rune(u)] = c
		if isCJK(rune(u)) {
			kanjiRunes = append(kanjiRunes, rune(u))
		}
	}
}

func isCJK(r rune) bool {
	return r >= 0x4E00 && r <= 0x9FFF || r >= 0x3400 && r <= 0x4DBF || r >= 0xF900 && r <= 0xFAFF
}

// KanjiRunes lists every rune the documented kanji mode accepts.
func KanjiRunes() []rune { return kanjiRunes }

// IsKanji reports whether the documented kanji mode accepts r.
func IsKanji(r rune) bool { _, ok := runeToSjis[r]; return ok && isCJK(r) }

// AlnumSet is the alphanumeric alphabet, in value order.
const AlnumSet = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"

// Fits reports whether text can be written in mode m.
func Fits(m Mode, text string) bool {
	switch m {
	case Numeric:
		for i := 0; i < len(text); i++ {
			if text[i] < '0' || text[i] > '9' {
				return false
			}
		}
	case Alnum:
		for i := 0; i < len(text); i++ {
			if strings.IndexByte(AlnumSet, text[i]) < 0 {
				return false
			}
		}
	case Kanji:
		for _, r := range text {
			if !IsKanji(r) {
				return false
			}
		}
	}
	return true
}

// AutoMode is the documented automatic mode: the first of numeric, alphanumeric, kanji, byte that
// holds every character.
func AutoMode(text string) Mode {
	for _, m := range []Mode{Numeric, Alnum, Kanji} {
		if Fits(m, text) {
			return m
		}
	}
	return Byte
}

// CharCount is the value of the character count indicator.
func CharCount(m Mode, text string) int {
	if m == Kanji {
		return len([]rune(text))
	}
	return len(text)
}
