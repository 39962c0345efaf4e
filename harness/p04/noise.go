package p04

import (
	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HIgnored : text and JSON models of a split tree, a deeper one and a constant in 1 or 3 classes, sum or mean; all numbers that
// do not bear on predictions (gains, counts, weights, inner values, shrinkage) are arbitrary int32.
func HIgnored() {
	m := &mk.LG{MaxFeature: 0, NumClass: []int{1, 3}[vf.Choose("classes", 2)], Noise: func() string { return vf.IntTok(int64(vf.I32("ignored"))) }}
	m.Trees = []*mk.Tree{
		{Left: mk.Is(-1), Right: mk.Is(-2), Feature: mk.Is(0), Dec: mk.Is(2), Thr: mk.Is(0), Leaf: mk.Is(1, 2)},
		{Left: mk.Is(1, -1), Right: mk.Is(-2, -3), Feature: mk.Is(0, 0), Dec: mk.Is(2, 2), Thr: mk.Is(5, 3), Leaf: mk.Is(10, 20, 30)},
		{Leaf: mk.Is(100)},
	}
	var e *leaves.Ensemble
	if vf.Choose("json", 2) == 1 {
		m.Version = "v2"
		e = m.MustLoadJSON()
	} else {
		m.Avg = vf.Choose("mean", 2) == 1
		e = m.MustLoad(false)
	}
	x := vf.F64("x")
	vf.Assume(x == x)
	want := []float64{2, 20, 100}
	if x <= 0 {
		want[0] = 1
	}
	if x <= 3 {
		want[1] = 10
	} else if x <= 5 {
		want[1] = 30
	}
	if m.NumClass == 1 {
		want = []float64{want[0] + want[1] + want[2]}
		if m.Avg {
			want[0] /= 3
		}
	}
	out := make([]float64, len(want))
	vf.Assert(e.Predict([]float64{x}, 0, out) == nil, "prediction succeeds")
	for k := range out {
		vf.Assert(out[k] == want[k] || m.Avg && m.NumClass == 1 && vf.Close(out[k], want[k], 132), "numbers without meaning do not bear on the score")
	}
}
