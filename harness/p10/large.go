package p10

import (
	"math"

	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HManyClasses : a multiclass model of 300 classes; one class has any of 9 scores.
func HManyClasses() {
	const n = 300
	vf.Steps(60000000)
	m := &mk.LG{NumClass: n, MaxFeature: 1, Objective: "multiclass num_class:300"}
	at := []int{0, 255, 256, n - 1}[vf.Choose("class", 4)]
	s := []float64{0, 1, -1, 700, -700, 5, 0.5, 1e308, -1e308}[vf.Choose("score", 9)]
	sc := make([]float64, n)
	for k := 0; k < n; k++ {
		sc[k] = float64(k%7) / 4
		if k == at {
			sc[k] = s
		}
		m.Trees = append(m.Trees, &mk.Tree{Leaf: mk.Fs(sc[k])})
	}
	e := m.MustLoad(true)
	out := make([]float64, n)
	row := []float64{0, 0}
	vf.Assert(e.NOutputGroups() == n && e.Predict(row, 0, out) == nil, "prediction with many classes")
	max, sum := math.Inf(-1), 0.0
	for _, v := range sc {
		max = math.Max(max, v)
	}
	for _, v := range sc {
		sum += math.Exp(v - max)
	}
	for k, v := range sc {
		vf.Assert(vf.Close(out[k], math.Exp(v-max)/sum, 1), "the softmax of many scores")
	}
	vf.Assert(e.EnsembleWithRawPredictions().Predict(row, 0, out) == nil, "raw prediction with many classes")
	for k, v := range sc {
		vf.Assert(out[k] == v, "the raw scores of many classes")
	}
}
