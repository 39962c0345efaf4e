package p07

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HNames : the objective's name is any text, short or long; without transformation it does not matter.
func HNames() {
	vf.Steps(200000000)
	m := &mk.XG{Features: 1, NumFeature: 1, Groups: 1, Gbm: "dart", Base: 0.25, Trees: []*mk.XTree{mk.XStump(0, true, 0.5, 1, 2)}, Drop: []float32{0.5}}
	m.Obj = mk.AnyName()
	e := m.MustLoad(false)
	x := vf.F64("x")
	vf.Assume(x != 0.5 && x == x)
	out := []float64{-1}
	vf.Assert(e.Predict([]float64{x}, 0, out) == nil, "prediction succeeds")
	w := 0.75
	if x >= 0.5 {
		w = 1.25
	}
	vf.Assert(vf.SameBits(out[0], w), "the name of the objective does not bear on the score")
}
