package p07

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HIgnored : gbtree and dart models of two classes; all words of header, booster and trees that do not bear on predictions are
// arbitrary.
func HIgnored() {
	m := &mk.XG{Base: 0.5, Features: 2, Groups: 2, NumClass: vf.I32("classes of the header"), Noise: func() uint32 { return vf.U32("ignored") }}
	dart := vf.Choose("dart", 2) == 1
	if dart {
		m.Gbm = "dart"
	}
	w := []float64{1, 1, 1, 1}
	for j := range w {
		m.Trees = append(m.Trees, mk.XStump(0, true, 0.5, float32(j+1), float32(10*j+10)))
		m.Drop = append(m.Drop, drops[j+1])
		if dart {
			w[j] = float64(drops[j+1])
		}
	}
	e := m.MustLoad(false)
	out := make([]float64, 2)
	vf.Assert(e.Predict([]float64{0, 1}, 0, out) == nil, "prediction succeeds")
	vf.Assert(out[0] == 0.5+1*w[0]+3*w[2] && out[1] == 0.5+2*w[1]+4*w[3], "words without meaning do not bear on the score")
	vf.Assert(e.Predict([]float64{1, 1}, 1, out) == nil, "prediction succeeds")
	vf.Assert(out[0] == 0.5+10*w[0] && out[1] == 0.5+20*w[1], "words without meaning do not bear on the score")
}
