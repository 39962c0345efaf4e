package p27

import (
	"bufio"
	"bytes"
	"errors"

	"github.com/dmitryikh/leaves/mat"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

func values(n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = vf.F64("v")
	}
	return v
}

var delims = []string{",", "\t", ";", " ", "||", ", ", "\xff"}

// HRoundTrip : every matrix of 1..3 (thorough: 4) rows and columns, all values with NaN and infinities, seven delimiters; read
// back from a reader and from a file (also one that replaces a longer one), all rows or a part of them.
func HRoundTrip() {
	max := 3 + vf.Tier()
	rows, cols := 1+vf.Choose("rows-1", max), 1+vf.Choose("cols-1", max)
	v := values(rows * cols)
	copied := append([]float64{}, v...)
	m := &mat.DenseMat{Values: v, Rows: rows, Cols: cols}
	d := delims[vf.Choose("delimiter", len(delims))]
	var buf bytes.Buffer
	vf.Assert(m.WriteStr(&buf, d) == nil, "a consistent matrix is written")
	limit := 0
	if vf.Choose("limited", 2) == 1 {
		limit = rows
	}
	got, err := mat.DenseMatFromCsv(bufio.NewReader(&buf), limit, false, d, -7)
	same(got, err, copied, rows, cols)
	name := vf.TempName("m.csv")
	if limit > 0 { // a longer file of the same name is replaced
		w := &mat.DenseMat{Values: make([]float64, 40), Rows: 8, Cols: 5}
		vf.Assert(w.ToCsvFile(name, d) == nil, "a matrix is written to a file")
	}
	vf.Assert(m.ToCsvFile(name, d) == nil, "a consistent matrix is written to a file")
	got, err = mat.DenseMatFromCsvFile(name, 0, false, d, -7)
	same(got, err, copied, rows, cols)
	for i := range v {
		vf.Assert(vf.SameBits(v[i], copied[i]), "writing leaves the matrix alone")
	}
	if cols > 1 {
		got, err = mat.DenseMatFromCsvFile(name, 1, true, d, -7)
		same(got, err, copied[1:cols], 1, cols-1)
	}
}

func same(got *mat.DenseMat, err error, v []float64, rows, cols int) {
	vf.Assert(err == nil && got != nil && got.Rows == rows && got.Cols == cols && len(got.Values) == len(v), "the same shape is read back")
	for i := range v {
		vf.Assert(vf.SameBits(got.Values[i], v[i]), "the same values are read back")
	}
}

// HInconsistent : shapes of 0..4 by 0..4 with 0..5 values: refused exactly when the product is not the number of values, and
// then nothing is written.
func HInconsistent() {
	m := &mat.DenseMat{Values: values(vf.Choose("values", 6)), Rows: vf.Int("rows", 0, 4), Cols: vf.Int("cols", 0, 4)}
	var buf bytes.Buffer
	err := m.WriteStr(&buf, ",")
	vf.Assert((err == nil) == (m.Rows*m.Cols == len(m.Values)), "refused exactly when inconsistent")
	vf.Assert(err == nil || buf.Len() == 0, "nothing is written of an inconsistent matrix")
	if err == nil && m.Rows == 2 {
		vf.Cover("two rows")
	}
}

type failing struct{ left int }

func (f *failing) Write(p []byte) (int, error) {
	if f.left < len(p) {
		return 0, errors.New("full")
	}
	f.left -= len(p)
	return len(p), nil
}

// HFailingWriter : a writer that fails after any number of bytes, and a full device: the failure is reported.
func HFailingWriter() {
	m := &mat.DenseMat{Values: []float64{1, -2.5, 3, 4e10, 0.1, 6}, Rows: 3, Cols: 2}
	if vf.Choose("kind", 2) == 1 {
		m = &mat.DenseMat{}
	}
	var buf bytes.Buffer
	vf.Assert(m.WriteStr(&buf, ",") == nil, "written")
	room := vf.Choose("room", buf.Len()+1)
	err := m.WriteStr(&failing{room}, ",")
	vf.Assert((err == nil) == (room == buf.Len()), "a failure of the writer is reported")
	vf.Assert(m.ToCsvFile("/dev/full", ",") != nil, "a full device is reported")
	vf.Assert(m.ToCsvFile(vf.TempName("no")+"/such/directory", ",") != nil, "a file that cannot be made is reported")
}

const big = 1 << 31

// HArrays : 0..6 values, all shapes with dimensions below 2^31: the dense and the sparse matrix.
func HArrays() {
	v := values(vf.Choose("values", 7))
	copied := append([]float64{}, v...)
	rows, cols := vf.Int("rows", 0, big), vf.Int("cols", 0, big)
	ok := rows*cols == len(v)
	if len(v) == 0 && ok {
		// no elements: at most 9 rows, so that the row headers stay small
		vf.Assume(rows < 10)
	}
	d, err := mat.DenseMatFromArray(v, rows, cols)
	vf.Assert((err == nil) == ok, "refused exactly for a wrong element count")
	s, err := mat.CSRMatFromArray(v, rows, cols)
	vf.Assert((err == nil) == ok, "refused exactly for a wrong element count")
	if !ok {
		return
	}
	rows, cols = vf.Concrete(rows), cols
	for i := range v {
		v[i] = 7 // the matrices have to be copies
	}
	vf.Assert(d.Rows == rows && d.Cols == cols && len(d.Values) == len(v), "the shape of the dense matrix")
	vf.Assert(s.Rows() == rows && len(s.RowHeaders) == rows+1 && s.RowHeaders[0] == 0, "the shape of the sparse matrix")
	vf.Assert(len(s.Values) == len(v) && len(s.ColIndexes) == len(v), "the shape of the sparse matrix")
	for r := 0; r < rows; r++ {
		vf.Assert(s.RowHeaders[r+1] == (r+1)*cols, "the rows of the sparse matrix")
	}
	for i := range v {
		vf.Assert(vf.SameBits(d.Values[i], copied[i]), "the values of the dense matrix")
		vf.Assert(vf.SameBits(s.Values[i], copied[i]) && s.ColIndexes[i] == i%vf.Concrete(cols), "the values of the sparse matrix")
	}
	if rows == 2 && len(v) == 6 {
		vf.Cover("two by three")
	}
}

// HZero : matrices of zeros.
func HZero() {
	rows, cols := vf.Choose("rows", 4), vf.Choose("cols", 4)
	m := mat.DenseMatZero(rows, cols)
	vf.Assert(m.Rows == rows && m.Cols == cols && len(m.Values) == rows*cols, "the shape")
	for _, v := range m.Values {
		vf.Assert(v == 0, "zeros")
	}
	var none mat.CSRMat
	vf.Assert(none.Rows() == 0, "an empty sparse matrix has no rows")
}
