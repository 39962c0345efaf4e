package p08

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HNames : the objective's name is any text, short or long; without transformation it does not matter.
func HNames() {
	vf.Steps(200000000)
	m := &mk.XG{Gbm: "gblinear", Features: 1, NumFeature: 1, Groups: 1, Base: 0.25, Weights: []float32{2, 4}}
	m.Obj = mk.AnyName()
	e := m.MustLoad(false)
	x := []float64{0, 1, -2.5}[vf.Choose("x", 3)]
	out := []float64{-1}
	vf.Assert(e.Predict([]float64{x}, 0, out) == nil, "prediction succeeds")
	w := x*2 + 4.25
	vf.Assert(vf.SameBits(out[0], w), "the name of the objective does not bear on the score")
}
