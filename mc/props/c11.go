package props

import (
	"fmt"
	"strings"

	"verif.local/mc/eng"
	"verif.local/mc/qr"
	"verif.local/mc/ref"

	qrcode "github.com/yeqown/go-qrcode/v2"
)

func wantTypes(k ref.Kind) qrcode.QRType {
	switch k {
	case ref.KFinder:
		return qrcode.QRType_FINDER
	case ref.KSeparator:
		return qrcode.QRType_SPLITTER
	case ref.KTiming:
		return qrcode.QRType_TIMING
	case ref.KFormat:
		return qrcode.QRType_FORMAT
	case ref.KVersion:
		return qrcode.QRType_VERSION
	case ref.KDark:
		return qrcode.QRType_DARK
	}
	return qrcode.QRType_DATA // alignment modules are labelled as data
}

func matrixViews(v, ec, k int) eng.Out {
	m0, t := textFor(v, ec, k)
	code, err := qrcode.NewWith(t, qr.Ver(v), qr.EC[ec], qr.Mode[m0])
	if err != nil {
		return eng.V("encoding failed: %v", err)
	}
	mat, err := qr.Matrix(code)
	if err != nil {
		return eng.V("save: %v", err)
	}
	n := ref.Size(v)
	if mat.Width() != n || mat.Height() != n || code.Dimension() != n {
		return eng.V("width %d height %d dimension %d, want %d", mat.Width(), mat.Height(), code.Dimension(), n)
	}
	s, err := qr.Sym(mat)
	if err != nil {
		return eng.V("%v", err)
	}
	if s.N != n {
		return eng.V("bitmap has %d rows, want %d", s.N, n)
	}
	// orientation: the reader would fail on a transposed or mirrored symbol
	if d, err := ref.DecodeStrict(s); err != nil || string(d.Text) != t {
		return eng.V("bitmap does not read back: %v", err)
	}
	l := ref.GetLayout(v)
	type visit struct {
		x, y int
		v    qrcode.QRValue
	}
	scan := func(row bool) (out []visit) {
		f := func(x, y int, v qrcode.QRValue) { out = append(out, visit{x, y, v}) }
		if row {
			mat.Iterate(qrcode.IterDirection_ROW, f)
		} else {
			mat.Iterate(qrcode.IterDirection_COLUMN, f)
		}
		return
	}
	rows, cols := scan(true), scan(false)
	if len(rows) != n*n || len(cols) != n*n {
		return eng.V("iteration visits %d and %d modules of %d", len(rows), len(cols), n*n)
	}
	for i := 0; i < n*n; i++ {
		r, c := rows[i], cols[i]
		if r.x != i%n || r.y != i/n {
			return eng.V("row-first visit %d is (%d,%d)", i, r.x, r.y)
		}
		if c.x != i/n || c.y != i%n {
			return eng.V("column-first visit %d is (%d,%d)", i, c.x, c.y)
		}
		if r.v.IsSet() != s.At(r.x, r.y) || c.v.IsSet() != s.At(c.x, c.y) {
			return eng.V("iteration and bitmap disagree at visit %d", i)
		}
		want := wantTypes(l.Kind[i])
		// timing modules inside an alignment pattern may carry either label
		alt := want
		if l.Kind[i] == ref.KAlign && (r.x == 6 || r.y == 6) {
			alt = qrcode.QRType_TIMING
		}
		if ty := r.v.Type(); ty != want && ty != alt {
			return eng.V("module (%d,%d) is labelled %v, it is a %s module", r.x, r.y, ty, l.Kind[i])
		}
		if cols[r.x*n+r.y].v != r.v {
			return eng.V("row-first and column-first values of (%d,%d) differ", r.x, r.y)
		}
	}
	for y := 0; y < n; y++ {
		r := mat.Row(y)
		c := mat.Col(y)
		if len(r) != n || len(c) != n {
			return eng.V("row %d has %d, column %d has %d modules", y, len(r), y, len(c))
		}
		for x := 0; x < n; x++ {
			if r[x] != rows[y*n+x].v {
				return eng.V("Row(%d)[%d] differs from the iteration", y, x)
			}
			if c[x] != rows[x*n+y].v {
				return eng.V("Col(%d)[%d] differs from the iteration", y, x)
			}
		}
	}
	for _, out := range []int{-1, -n, n, n + 1, 1 << 30} {
		if r := mat.Row(out); len(r) != 0 {
			return eng.V("Row(%d) returns %d modules", out, len(r))
		}
		if c := mat.Col(out); len(c) != 0 {
			return eng.V("Col(%d) returns %d modules", out, len(c))
		}
	}
	// independence
	cp := mat.Copy()
	if cp.Width() != n || cp.Height() != n {
		return eng.V("copy is %dx%d", cp.Width(), cp.Height())
	}
	cs, err := qr.Sym(*cp)
	if err != nil {
		return eng.V("copy: %v", err)
	}
	if d, how := cs.Diff(s); d != 0 {
		return eng.V("copy differs: %s", how)
	}
	i := 0
	bad := ""
	cp.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) {
		if v != rows[i].v {
			bad = fmt.Sprintf("copy value at (%d,%d) differs", x, y)
		}
		i++
	})
	if bad != "" {
		return eng.V("%s", bad)
	}
	bm := mat.Bitmap()
	for y := range bm {
		for x := range bm[y] {
			bm[y][x] = !bm[y][x]
		}
		r := mat.Row(y)
		for x := range r {
			r[x] = qrcode.QRValue_INIT_V0
		}
		c := cp.Col(y)
		for x := range c {
			c[x] = qrcode.QRValue_DARK_V1
		}
	}
	after, err := qr.Of(code)
	if err != nil {
		return eng.V("second save: %v", err)
	}
	if d, how := after.Diff(s); d != 0 {
		return eng.V("changing returned bitmaps, rows and copies changed the code: %s", how)
	}
	for i, r := range scan(true) {
		if r != rows[i] {
			return eng.V("changing returned bitmaps, rows and copies changed module (%d,%d)", r.x, r.y)
		}
	}
	return eng.Out{Key: fmt.Sprintf("v%d %x", v, hashSym(s)), Extra: map[string]int64{"modules_compared": int64(n * n)}}
}

// Handles on one code and what callers do with them, in any order. Every handle has its own model.
type viewState struct {
	code *qrcode.QRCode
	n    int
	want []bool // of the code
	mats []*qrcode.Matrix
	mw   [][]qrcode.QRValue // what each matrix holds
	cp   []bool             // the matrix is a copy
	bms  [][][]bool
	bw   [][]bool
}

func values(m *qrcode.Matrix) (out []qrcode.QRValue) {
	m.Iterate(qrcode.IterDirection_ROW, func(_, _ int, v qrcode.QRValue) { out = append(out, v) })
	return
}

var viewOps = []struct {
	name string
	f    func(s *viewState) error
}{
	{"keep the bitmap of the last matrix", func(s *viewState) error { s.take(len(s.mats) - 1); return nil }},
	{"change the bitmap of the first matrix", func(s *viewState) error { s.flip(s.take(0)); return nil }},
	{"change the bitmap of the last matrix", func(s *viewState) error { s.flip(s.take(len(s.mats) - 1)); return nil }},
	{"change rows of the last matrix", func(s *viewState) error {
		m := s.mats[len(s.mats)-1]
		for y := 0; y < s.n; y++ {
			for x, r := 0, m.Row(y); x < len(r); x++ {
				r[x] = qrcode.QRValue_DARK_V1
			}
		}
		return nil
	}},
	{"copy the last matrix", func(s *viewState) error { s.add(s.mats[len(s.mats)-1].Copy(), true); return nil }},
	{"copy the first matrix", func(s *viewState) error { s.add(s.mats[0].Copy(), true); return nil }},
	{"change the last matrix, if a copy", func(s *viewState) error {
		k := len(s.mats) - 1
		if !s.cp[k] { // Col gives the module storage itself
			return nil
		}
		for x := 0; x < s.n; x += 2 {
			for y, c := 0, s.mats[k].Col(x); y < len(c); y += 3 {
				c[y] = qrcode.QRValue_DARK_V1
				s.mw[k][y*s.n+x] = qrcode.QRValue_DARK_V1
			}
		}
		return nil
	}},
	{"save the code again", func(s *viewState) error {
		m, err := qr.Matrix(s.code)
		if err == nil {
			s.add(&m, false)
		}
		return err
	}},
}

func (s *viewState) add(m *qrcode.Matrix, copied bool) {
	s.cp = append(s.cp, copied)
	s.mats = append(s.mats, m)
	s.mw = append(s.mw, values(m))
}

func (s *viewState) take(k int) int {
	s.bms = append(s.bms, s.mats[k].Bitmap())
	var w []bool
	for _, v := range s.mw[k] {
		w = append(w, v.IsSet())
	}
	s.bw = append(s.bw, w)
	return len(s.bms) - 1
}

func (s *viewState) flip(k int) {
	for y, r := range s.bms[k] {
		for x := range r {
			if (x+2*y+k)%3 != 0 {
				r[x] = !r[x]
				s.bw[k][y*s.n+x] = !s.bw[k][y*s.n+x]
			}
		}
	}
}

func sameBits(b [][]bool, w []bool, n int) bool {
	if len(b) != n {
		return false
	}
	for y := range b {
		if len(b[y]) != n {
			return false
		}
		for x := range b[y] {
			if b[y][x] != w[y*n+x] {
				return false
			}
		}
	}
	return true
}

func (s *viewState) check() string {
	for k, m := range s.mats {
		got := values(m)
		if len(got) != len(s.mw[k]) {
			return fmt.Sprintf("matrix %d has %d modules", k, len(got))
		}
		w := make([]bool, len(got))
		for i, v := range got {
			if v != s.mw[k][i] {
				return fmt.Sprintf("module (%d,%d) of matrix %d changed", i%s.n, i/s.n, k)
			}
			w[i] = v.IsSet()
		}
		if !sameBits(m.Bitmap(), w, s.n) {
			return fmt.Sprintf("the bitmap of matrix %d is not what the iteration shows", k)
		}
	}
	for k, b := range s.bms {
		if !sameBits(b, s.bw[k], s.n) {
			return fmt.Sprintf("bitmap %d that the caller has changed by itself", k)
		}
	}
	return ""
}

func viewHistory(ops []int) eng.Out {
	code, err := qrcode.NewWith("views", qr.Ver(1), qr.EC[1])
	if err != nil {
		return eng.V("%v", err)
	}
	m, err := qr.Matrix(code)
	if err != nil {
		return eng.V("%v", err)
	}
	s := &viewState{code: code, n: 21}
	s.add(&m, false)
	first := append([]qrcode.QRValue(nil), s.mw[0]...)
	for i, k := range ops {
		if err := viewOps[k].f(s); err != nil {
			return eng.V("step %d: %v", i, err)
		}
		if v := s.check(); v != "" {
			return eng.V("after step %d: %s", i, v)
		}
	}
	again, err := qr.Matrix(code)
	if err != nil {
		return eng.V("%v", err)
	}
	for i, v := range values(&again) {
		if v != first[i] {
			return eng.V("module (%d,%d) of the code changed", i%21, i/21)
		}
	}
	return eng.K("%v", ops)
}

func viewNames(ops []int) string {
	var n []string
	for _, k := range ops {
		n = append(n, viewOps[k].name)
	}
	return strings.Join(n, "; ")
}

func init() {
	eng.Register(&eng.Prop{
		ID: "C11", Level: "exploration",
		Rule:        "one symbol per case; every coordinate of every view (bitmap, both iterations, rows, columns, copy, labels) is compared with the bitmap that reads back correctly and with the reference layout; then every returned bitmap, row and copied column is overwritten and the symbol compared again. histories: one sequence of caller actions per case, every matrix and bitmap in the caller's hands compared with its model after every action. Distinct by symbol or sequence.",
		Assumptions: []string{"alignment modules are labelled as data modules (there is no other label); on the timing rows either label is accepted"},
		Bounds:      map[string]string{"quick": "40 versions x 4 levels x 6 texts; all sequences of up to 5 of 8 caller actions on one code (keep or change bitmaps, rows, copies and copies of copies, save again)", "thorough": "40 versions x 4 levels x 40 texts; sequences of up to 6 actions"},
		Spaces: func(tier string) []*eng.Space {
			k, depth := 6, 5
			if tier == "thorough" {
				k, depth = 40, 6
			}
			return []*eng.Space{{Name: "views", N: prod(k, 40, 4), Chunk: 4, Run: func(i int64) eng.Out {
				c := combo(i, k, 40, 4)
				return matrixViews(c[1]+1, c[2], c[0])
			}, Desc: func(i int64) string {
				c := combo(i, k, 40, 4)
				return fmt.Sprintf("version %d level %s text %d", c[1]+1, qr.ECName[c[2]], c[0])
			}}, {Name: "histories", N: wordCount(len(viewOps), depth), Run: func(i int64) eng.Out { return viewHistory(word(i, len(viewOps))) },
				Desc: func(i int64) string { return "one code: " + viewNames(word(i, len(viewOps))) }}}
		},
	})
}
