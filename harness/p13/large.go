package p13

import (
	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HManyRows : 1040, 5000 or 66000 rows in one batch, dense and sparse, one or eight threads; one of them has any value.
func HManyRows() {
	vf.Steps(400000000)
	rows := []int{1040, 5000, 66000}[vf.Choose("rows", 3)]
	vf.SetProcs(8)
	vf.Preempt(-1)
	var e *leaves.Ensemble
	n := 1
	if vf.Choose("model", 2) == 0 {
		t := &mk.Tree{Left: mk.Is(-1), Right: mk.Is(-2), Feature: mk.Is(0), Dec: mk.Is(2), Thr: mk.Is(50), Leaf: mk.Is(1, 2)}
		e = (&mk.LG{MaxFeature: 1, Trees: []*mk.Tree{t}}).MustLoad(false)
	} else {
		n = 2
		e = (&mk.XG{Gbm: "gblinear", Groups: 2, Features: 2, NumFeature: 2, Weights: []float32{1, 0, 0, 2, 0, 0}}).MustLoad(false)
	}
	dense := make([]float64, 2*rows)
	var cols []int
	indptr := []int{0}
	var vals []float64
	at := []int{rows - 1, rows / 2, 1024}[vf.Choose("at", 3)]
	vf.Assume(rows < 66000 || vf.Tier() > 0 || at == rows-1) // the largest batches in full on the thorough tier only
	for r := 0; r < rows; r++ {
		dense[2*r] = float64(r % 101)
		if r%2 == 0 {
			dense[2*r+1] = float64(r)
		}
		if r == at {
			dense[2*r] = vf.F64("x")
		}
		cols, vals = append(cols, 0), append(vals, dense[2*r])
		if r%2 == 0 {
			cols, vals = append(cols, 1), append(vals, dense[2*r+1])
		}
		indptr = append(indptr, len(cols))
	}
	threads := []int{1, 8}[vf.Choose("threads", 2)]
	got := make([]float64, rows*n+3)
	for i := range got {
		got[i] = 77
	}
	if vf.Choose("sparse", 2) == 1 {
		vf.Assert(e.PredictCSR(indptr, cols, vals, got, 0, threads) == nil, "PredictCSR succeeds")
	} else {
		vf.Assert(e.PredictDense(dense, rows, 2, got, 0, threads) == nil, "PredictDense succeeds")
	}
	want := make([]float64, n)
	vf.Assert(e.Predict(dense[2*at:2*at+2], 0, want) == nil, "Predict succeeds")
	for k := range want {
		vf.Assert(vf.Same(got[at*n+k], want[k]), "the row of a large batch")
	}
	for r := 0; r < rows; r++ {
		if r == at {
			continue
		}
		if n == 2 {
			vf.Assert(got[2*r] == dense[2*r] && got[2*r+1] == 2*dense[2*r+1], "every row of a large batch")
		} else if dense[2*r] <= 50 {
			vf.Assert(got[r] == 1, "every row of a large batch")
		} else {
			vf.Assert(got[r] == 2, "every row of a large batch")
		}
	}
	vf.Assert(got[rows*n] == 77 && got[rows*n+1] == 77 && got[rows*n+2] == 77, "nothing behind the outputs")
}
