package ref

// GF(256), reducing polynomial 0x11D, computed by plain carry-less multiplication.
func gfMul(a, b byte) byte {
	var r int
	x := int(a)
	for i := 0; i < 8; i++ {
		if b>>uint(i)&1 == 1 {
			r ^= x << uint(i)
		}
	}
	for i := 14; i >= 8; i-- {
		if r>>uint(i)&1 == 1 {
			r ^= 0x11D << uint(i-8)
		}
	}
	return byte(r)
}

var mulTab [256][256]byte
var expTab [512]byte
var logTab [256]int

func init() {
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			mulTab[a][b] = gfMul(byte(a), byte(b))
		}
	}
	x := byte(1)
	for i := 0; i < 512; i++ {
		expTab[i] = x
		if i < 255 {
			logTab[x] = i
		}
		x = mulTab[x][2]
	}
}

func inv(a byte) byte { return expTab[255-logTab[a]] }

// Syndromes evaluates the block (data then EC, highest power first) at 2^0..2^(n-1).
func Syndromes(block []byte, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		var s byte
		for _, c := range block {
			s = mulTab[s][expTab[i]] ^ c
		}
		out[i] = s
	}
	return out
}

// RSEncode returns the EC codewords of data.
func RSEncode(data []byte, n int) []byte {
	gen := []byte{1}
	for i := 0; i < n; i++ {
		next := make([]byte, len(gen)+1)
		for j, c := range gen {
			next[j] ^= c
			next[j+1] ^= mulTab[c][expTab[i]]
		}
		gen = next
	}
	rem := make([]byte, len(data)+n)
	copy(rem, data)
	for i := range data {
		f := rem[i]
		for j, g := range gen {
			rem[i+j] ^= mulTab[g][f]
		}
	}
	return rem[len(data):]
}

// RSCorrect corrects up to n/2 errors in place and reports whether the result is a codeword.
// Berlekamp-Massey, Chien search, Forney.
func RSCorrect(block []byte, n int) bool {
	syn := Syndromes(block, n)
	clean := true
	for _, s := range syn {
		if s != 0 {
			clean = false
		}
	}
	if clean {
		return true
	}
	sigma, b := []byte{1}, []byte{1}
	l, m := 0, 1
	bb := byte(1)
	for i := 0; i < n; i++ {
		d := syn[i]
		for j := 1; j <= l && j < len(sigma); j++ {
			d ^= mulTab[sigma[j]][syn[i-j]]
		}
		if d == 0 {
			m++
			continue
		}
		coef := mulTab[d][inv(bb)]
		t := append([]byte(nil), sigma...)
		for len(sigma) < len(b)+m {
			sigma = append(sigma, 0)
		}
		for j, c := range b {
			sigma[j+m] ^= mulTab[coef][c]
		}
		if 2*l <= i {
			l = i + 1 - l
			b, bb, m = t, d, 1
		} else {
			m++
		}
	}
	if l > n/2 {
		return false
	}
	var pos []int
	for p := 0; p < len(block); p++ { // p = power of x of the position
		xi := expTab[(255-p%255)%255] // X^-1
		var v byte
		for j := len(sigma) - 1; j >= 0; j-- {
			v = mulTab[v][xi] ^ sigma[j]
		}
		if v == 0 {
			pos = append(pos, p)
		}
	}
	if len(pos) != l {
		return false
	}
	omega := make([]byte, n)
	for i := 0; i < n; i++ {
		for j := 0; j <= i && j < len(sigma); j++ {
			omega[i] ^= mulTab[sigma[j]][syn[i-j]]
		}
	}
	for _, p := range pos {
		x := expTab[p%255]
		xi := inv(x)
		var num, den byte
		for j := n - 1; j >= 0; j-- {
			num = mulTab[num][xi] ^ omega[j]
		}
		for j := 1; j < len(sigma); j += 2 {
			t := sigma[j]
			for k := 0; k < j-1; k++ {
				t = mulTab[t][xi]
			}
			den ^= t
		}
		if den == 0 {
			return false
		}
		block[len(block)-1-p] ^= mulTab[x][mulTab[num][inv(den)]]
	}
	for _, s := range Syndromes(block, n) {
		if s != 0 {
			return false
		}
	}
	return true
}
