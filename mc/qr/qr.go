// Package qr drives the code under test through its public API and captures what it produces.
package qr

import (
	"fmt"

	"verif.local/mc/ref"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

// Modes and levels, indexed like package ref.
var (
	Mode = []qrcode.EncodeOption{
		qrcode.WithEncodingMode(qrcode.EncModeNumeric),
		qrcode.WithEncodingMode(qrcode.EncModeAlphanumeric),
		qrcode.WithEncodingMode(qrcode.EncModeByte),
		qrcode.WithEncodingMode(qrcode.EncModeKanji),
	}
	EC = []qrcode.EncodeOption{
		qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionLow),
		qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionMedium),
		qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionQuart),
		qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionHighest),
	}
	ECName = []string{"L", "M", "Q", "H"}
)

// Ver is the explicit version option.
func Ver(v int) qrcode.EncodeOption { return qrcode.WithVersion(v) }

// Capture is a Writer that keeps the matrix.
type Capture struct {
	Mat    qrcode.Matrix
	Writes int
	Closes int
}

// Write implements qrcode.Writer.
func (c *Capture) Write(m qrcode.Matrix) error { c.Mat = m; c.Writes++; return nil }

// Close implements qrcode.Writer.
func (c *Capture) Close() error { c.Closes++; return nil }

// Matrix captures the matrix of a code.
func Matrix(q *qrcode.QRCode) (qrcode.Matrix, error) {
	var c Capture
	err := q.Save(&c)
	return c.Mat, err
}

// Sym converts a matrix through its bitmap.
func Sym(m qrcode.Matrix) (*ref.Symbol, error) {
	bm := m.Bitmap()
	n := len(bm)
	s := ref.NewSymbol(n)
	for y := range bm {
		if len(bm[y]) != n {
			return nil, fmt.Errorf("bitmap row %d has %d of %d modules", y, len(bm[y]), n)
		}
		copy(s.B[y*n:], bm[y])
	}
	return s, nil
}

// Of captures the symbol of a code.
func Of(q *qrcode.QRCode) (*ref.Symbol, error) {
	m, err := Matrix(q)
	if err != nil {
		return nil, err
	}
	return Sym(m)
}

// Encode encodes a string and captures the symbol.
func Encode(text string, opts ...qrcode.EncodeOption) (*ref.Symbol, error) {
	q, err := qrcode.NewWith(text, opts...)
	if err != nil {
		return nil, err
	}
	return Of(q)
}

// EncodeBytes encodes a byte slice and captures the symbol.
func EncodeBytes(text []byte, opts ...qrcode.EncodeOption) (*ref.Symbol, error) {
	q, err := qrcode.NewWith(text, opts...)
	if err != nil {
		return nil, err
	}
	return Of(q)
}
