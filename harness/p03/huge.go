package p03

import (
	"strconv"

	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HHuge : a balanced tree of 70000 leaves; values between two neighbouring thresholds at nine places.
func HHuge() {
	vf.Steps(2000000000)
	const n = 70000
	s, mids := mk.Balanced(n)
	t := &mk.Tree{Left: make([]string, n-1), Right: make([]string, n-1), Thr: make([]string, n-1), Feature: make([]string, n-1), Dec: make([]string, n-1), Leaf: make([]string, n)}
	for i := 0; i < n-1; i++ {
		t.Left[i], t.Right[i] = strconv.Itoa(s.Left[i]), strconv.Itoa(s.Right[i])
		t.Thr[i], t.Feature[i], t.Dec[i] = strconv.Itoa(mids[i]), "0", "0"
	}
	for i := range t.Leaf {
		t.Leaf[i] = strconv.Itoa(100000 + i)
	}
	e := (&mk.LG{Trees: []*mk.Tree{t}}).MustLoad(false)
	vf.Assert(e.NLeaves()[0] == n, "the number of leaves of a huge tree")
	v := e.EnsembleWithLeafPredictions()
	for _, w := range mk.Windows(n) {
		x := vf.F64("x")
		vf.Assume(x > float64(w) && x <= float64(w+1))
		out := []float64{-1}
		vf.Assert(e.Predict([]float64{x}, 0, out) == nil && out[0] == float64(100000+w), "the declared value of the leaf reached in a huge tree")
		vf.Assert(v.Predict([]float64{x}, 0, out) == nil && out[0] == float64(w), "the declared index of the leaf reached in a huge tree")
	}
}
