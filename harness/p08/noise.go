package p08

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HIgnored : all words of header and booster that do not bear on predictions are arbitrary.
func HIgnored() {
	m := &mk.XG{Gbm: "gblinear", Base: 0.5, Features: 2, NumFeature: 2, Groups: 2, NumClass: vf.I32("classes of the header"), Weights: []float32{1, 2, 4, 8, 16, 32}}
	m.Noise = func() uint32 { return vf.U32("ignored") }
	e := m.MustLoad(false)
	out := make([]float64, 2)
	vf.Assert(e.Predict([]float64{1, 3}, 0, out) == nil, "prediction succeeds")
	vf.Assert(out[0] == 0.5+16+1+12 && out[1] == 0.5+32+2+24, "words without meaning do not bear on the score")
}
