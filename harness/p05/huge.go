package p05

import (
	"bytes"
	"strconv"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HHuge : a balanced tree of 70000 leaves as a JSON dump; values between two neighbouring thresholds at nine places.
func HHuge() {
	vf.Steps(2000000000)
	const n = 70000
	var b []byte
	var put func(lo, hi int)
	put = func(lo, hi int) {
		if hi-lo == 1 {
			b = append(b, `{"leaf_value":`...)
			b = append(strconv.AppendInt(b, int64(100000+lo), 10), '}')
			return
		}
		mid := (lo + hi) / 2
		b = append(b, `{"split_feature":0,"decision_type":"<=","default_left":true,"missing_type":"None","threshold":`...)
		b = append(strconv.AppendInt(b, int64(mid), 10), `,"left_child":`...)
		put(lo, mid)
		b = append(b, `,"right_child":`...)
		put(mid, hi)
		b = append(b, '}')
	}
	b = append(b, `{"name":"tree","version":"v2","num_class":1,"num_tree_per_iteration":1,"label_index":0,"max_feature_idx":0,"tree_info":[{"tree_index":0,"num_leaves":70000,"num_cat":0,"shrinkage":1,"tree_structure":`...)
	put(0, n)
	b = append(b, `}]}`...)
	e, err := leaves.LGEnsembleFromJSON(bytes.NewReader(b), false)
	vf.Assert(err == nil && e != nil, "a huge JSON dump is loaded")
	vf.Assert(e.NLeaves()[0] == n, "the number of leaves of a huge tree")
	for _, w := range mk.Windows(n) {
		x := vf.F64("x")
		vf.Assume(x > float64(w) && x <= float64(w+1))
		out := []float64{-1}
		vf.Assert(e.Predict([]float64{x}, 0, out) == nil && out[0] == float64(100000+w), "the leaf reached in a huge tree")
	}
}
