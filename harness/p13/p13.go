package p13

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

const width = 3

// HPatterns : every kind of model and view; batches of 0..2 rows, every sparsity pattern over the model's three features and one
// column behind them, any values (NaN, infinities and signed zeros included), columns of a sparse row in any order of two.
func HPatterns() {
	z, e, _, n := mk.ChooseZoo()
	rows := vf.Choose("rows", 3)
	extra := vf.Choose("extra column", 2)
	nc := width + extra
	dense := make([]float64, rows*nc)
	indptr := []int{0}
	var cols []int
	var vals []float64
	for r := 0; r < rows; r++ {
		p := vf.Choose("pattern", 1<<uint(nc))
		if vf.Tier() == 0 && r == 0 && rows == 2 {
			vf.Assume(p == 0 || p == 1 || p == 6 || p == 7 || p == 10 || p == 15)
		}
		for c := 0; c < nc; c++ {
			dense[r*nc+c] = z.Absent
			if p>>uint(c)&1 == 1 {
				dense[r*nc+c] = vf.F64("x")
			}
		}
		for i := 0; i < nc; i++ {
			c := i
			if r == 1 {
				c = nc - 1 - i
			}
			if p>>uint(c)&1 == 1 {
				cols = append(cols, c)
				vals = append(vals, dense[r*nc+c])
			}
		}
		indptr = append(indptr, len(cols))
	}
	one := make([]float64, rows*n)
	for r := 0; r < rows; r++ {
		vf.Assert(e.Predict(dense[r*nc:(r+1)*nc], 0, one[r*n:(r+1)*n]) == nil, "Predict succeeds")
		if n == 1 {
			vf.Assert(vf.Same(e.PredictSingle(dense[r*nc:r*nc+width], 0), one[r]), "PredictSingle agrees with Predict")
		}
	}
	sparse, full := make([]float64, rows*n), make([]float64, rows*n)
	for i := range sparse {
		sparse[i], full[i] = vf.F64("previous content"), 77
	}
	vf.Assert(e.PredictCSR(indptr, cols, vals, sparse, 0, 1) == nil, "PredictCSR succeeds")
	vf.Assert(e.PredictDense(dense, rows, nc, full, 0, 1) == nil, "PredictDense succeeds")
	for i := range one {
		vf.Observe(one[i])
		vf.Assert(vf.Same(sparse[i], one[i]), "PredictCSR agrees with Predict")
		vf.Assert(vf.Same(full[i], one[i]), "PredictDense agrees with Predict")
	}
	if rows == 2 && extra == 1 {
		vf.Cover("two rows, extra column")
	}
}

// HPlaces : every kind of model and view; batches around the multiples of the batch size, any thread count; one row with any
// values at the start, around the batch borders or at the end, between rows of fixed values; sparse rows of varying
// patterns, with and without a column the model does not use. One schedule (P14 explores the others).
func HPlaces() {
	z, e, _, n := mk.ChooseZoo()
	vf.SetProcs(4)
	vf.Preempt(-1)
	sizes, places := []int{16, 17, 33, 50}, []int{0, 16}
	if vf.Tier() == 1 {
		sizes, places = []int{1, 2, 15, 16, 17, 31, 32, 33, 48, 49, 50, 100}, []int{0, 15, 16, 31, 32}
	}
	rows := sizes[vf.Choose("rows", len(sizes))]
	threads := []int{0, 1, 2, 100, -1}[vf.Choose("threads", 5)]
	at := append(places, rows-1)[vf.Choose("at", len(places)+1)]
	vf.Assume(at < rows)
	nc := width
	if threads == 1 || threads == 100 {
		nc++ // a column the model does not use
	}
	dense := make([]float64, rows*nc)
	indptr := []int{0}
	var cols []int
	var vals []float64
	for r := 0; r < rows; r++ {
		for c := 0; c < nc; c++ {
			i := r*nc + c
			dense[i] = z.Absent
			if r == at && c < width {
				dense[i] = vf.F64("x")
			} else if (r+c)%3 != 0 {
				dense[i] = float64((r*7+c*5)%9) - 3.5
			} else {
				continue
			}
			cols = append(cols, c)
			vals = append(vals, dense[i])
		}
		indptr = append(indptr, len(cols))
	}
	want := make([]float64, rows*n)
	for r := 0; r < rows; r++ {
		vf.Assert(e.Predict(dense[r*nc:r*nc+width], 0, want[r*n:(r+1)*n]) == nil, "Predict succeeds")
	}
	got := make([]float64, rows*n)
	if vf.Choose("sparse", 2) == 1 {
		vf.Assert(e.PredictCSR(indptr, cols, vals, got, 0, threads) == nil, "PredictCSR succeeds")
	} else {
		vf.Assert(e.PredictDense(dense, rows, nc, got, 0, threads) == nil, "PredictDense succeeds")
	}
	for i := range want {
		vf.Observe(got[i])
		vf.Assert(vf.Same(got[i], want[i]), "a batch agrees with Predict row by row")
	}
	if rows == 50 && threads == -1 {
		vf.Cover("three batches")
	}
}

// HManyColumns : sparse entries far behind the model's columns, and a model wider than any column present.
func HManyColumns() {
	z, e, _, n := mk.ChooseZoo()
	x := vf.F64("x")
	c := vf.Choose("column", width+1)
	if c == width {
		c = vf.Int("far column", width, 1<<40)
	}
	got, want := make([]float64, 2*n), make([]float64, n)
	row := []float64{z.Absent, z.Absent, z.Absent}
	other := append([]float64{}, row...)
	for i := range row {
		if i == c {
			row[i] = x
		}
	}
	vf.Assert(e.PredictCSR([]int{0, 1, 1}, []int{c}, []float64{x}, got, 0, 1) == nil, "PredictCSR succeeds")
	vf.Assert(e.Predict(row, 0, want) == nil, "Predict succeeds")
	for i := range want {
		vf.Observe(got[i])
		vf.Assert(vf.Same(got[i], want[i]), "an entry counts exactly if the model has its column")
	}
	vf.Assert(e.Predict(other, 0, want) == nil, "Predict succeeds")
	for i := range want {
		vf.Assert(vf.Same(got[n+i], want[i]), "an entry does not influence the next row")
	}
}
