package p27

import (
	"bufio"
	"bytes"

	"github.com/dmitryikh/leaves/mat"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HLarge : 3000 rows of 7 columns, 3 rows of 20000 and 70000 rows of one, one value arbitrary: written and read back, and made
// from arrays.
func HLarge() {
	vf.Steps(400000000)
	sh := [][]int{{3000, 7}, {3, 20000}, {70000, 1}}[vf.Choose("shape", 3)]
	rows, cols := sh[0], sh[1]
	n := rows * cols
	at := []int{0, 255, 256, 4096, 20000, n - 1}[vf.Choose("at", 6)]
	v := make([]float64, n)
	for i := range v {
		v[i] = float64(i%1000) + 0.5
	}
	v[at] = vf.F64("v")
	copied := append([]float64{}, v...)
	if vf.Choose("arrays", 2) == 1 {
		d, err := mat.DenseMatFromArray(v, rows, cols)
		vf.Assert(err == nil, "a large matrix of an array")
		same(&d, nil, copied, rows, cols)
		s, err := mat.CSRMatFromArray(v, rows, cols)
		vf.Assert(err == nil && s.Rows() == rows && len(s.RowHeaders) == rows+1 && len(s.Values) == n && len(s.ColIndexes) == n, "a large sparse matrix of an array")
		for r := range s.RowHeaders {
			vf.Assert(s.RowHeaders[r] == r*cols, "the rows of a large sparse matrix")
		}
		for i := range v {
			vf.Assert(vf.SameBits(s.Values[i], copied[i]) && s.ColIndexes[i] == i%cols, "the values of a large sparse matrix")
		}
		_, err = mat.DenseMatFromArray(v[:n-1], rows, cols)
		_, err2 := mat.CSRMatFromArray(v[:n-1], rows, cols)
		vf.Assert(err != nil && err2 != nil, "an element less is refused")
		return
	}
	m := &mat.DenseMat{Values: v, Rows: rows, Cols: cols}
	var buf bytes.Buffer
	vf.Assert(m.WriteStr(&buf, ",") == nil, "a large matrix is written")
	b := buf.Bytes()
	got, err := mat.DenseMatFromCsv(bufio.NewReader(&buf), 0, false, ",", -7)
	same(got, err, copied, rows, cols)
	if at == 0 {
		vf.Assert(m.WriteStr(&failing{len(b) - 1}, ",") != nil, "a failure at the last byte is reported")
		vf.Assert(m.WriteStr(&failing{70000}, ",") != nil, "a failure in the middle is reported")
		m.Rows++
		vf.Assert(m.WriteStr(&buf, ",") != nil, "a row too many is refused")
	}
}
