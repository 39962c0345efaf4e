package p14

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HManyRows : batches of 1040, 4113 and 17000 rows, so that there are many more batches than workers; any int of at
// least 2 as the thread count, dense and sparse; one schedule.
func HManyRows() {
	vf.Steps(400000000)
	rows := []int{1040, 4113, 17000}[vf.Choose("rows", 3)]
	vf.SetProcs([]int{2, 16}[vf.Choose("processors", 2)])
	vf.Preempt(-1)
	threads := int(vf.I64("threads"))
	vf.Assume(threads > 1)
	t := &mk.Tree{Left: mk.Is(-1), Right: mk.Is(-2), Feature: mk.Is(0), Dec: mk.Is(2), Thr: mk.Is(50), Leaf: mk.Is(1, 2)}
	e := (&mk.LG{MaxFeature: 0, Trees: []*mk.Tree{t}}).MustLoad(false)
	vals := make([]float64, rows)
	for r := range vals {
		vals[r] = float64(r % 101)
	}
	got := make([]float64, rows+1)
	if vf.Choose("sparse", 2) == 1 {
		ip, cols := make([]int, rows+1), make([]int, rows)
		for r := range ip {
			ip[r] = r
		}
		vf.Assert(e.PredictCSR(ip, cols, vals, got, 0, threads) == nil, "a large batch succeeds")
	} else {
		vf.Assert(e.PredictDense(vals, rows, 1, got, 0, threads) == nil, "a large batch succeeds")
	}
	for r := range vals {
		want := 2.0
		if vals[r] <= 50 {
			want = 1
		}
		vf.Assert(got[r] == want, "every row of a large batch has its prediction")
	}
	vf.Assert(got[rows] == 0, "nothing is written behind the outputs")
}
