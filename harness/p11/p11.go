package p11

import (
	"math"

	"github.com/dmitryikh/leaves/transformation"
	"github.com/dmitryikh/leaves/util"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

func unit(p float64) bool { return p >= 0 && p <= 1 }

func finite(label string) float64 {
	x := vf.F64(label)
	vf.Assume(mk.Finite(x))
	return x
}

// HSigmoid : every finite float64 through util.Sigmoid, the slice form and the logistic transformation; exp by its lemmas.
func HSigmoid() {
	vf.Lemmas()
	x := finite("x")
	var p float64
	switch vf.Choose("form", 3) {
	case 0:
		p = util.Sigmoid(x)
	case 1:
		v := []float64{1, x}
		util.SigmoidFloat64SliceInplace(v)
		p = v[1]
	case 2:
		out := []float64{-1, -1}
		vf.Assert((&transformation.TransformLogistic{}).Transform([]float64{x}, out, 1) == nil, "one value is accepted")
		p = out[1]
	}
	vf.Assert(!math.IsNaN(p), "a probability is a number")
	vf.Assert(unit(p), "a probability lies in [0,1]")
	if p == 0 {
		vf.Cover("zero")
	}
	if p == 1 {
		vf.Cover("one")
	}
}

// HSigmoidOrder : two finite scores; the sigmoid is monotone.
func HSigmoidOrder() {
	vf.Lemmas()
	x, y := finite("x"), finite("y")
	vf.Assume(x <= y)
	vf.Assert(util.Sigmoid(x) <= util.Sigmoid(y), "the sigmoid orders scores")
}

// HExponential : every finite score through the exponential transformation.
func HExponential() {
	vf.Lemmas()
	x := finite("x")
	out := []float64{-1}
	vf.Assert((&transformation.TransformExponential{}).Transform([]float64{x}, out, 0) == nil, "one value is accepted")
	vf.Assert(!math.IsNaN(out[0]) && out[0] >= 0, "an exponential is a non-negative number")
}

func softmax(n int, form int, r []float64) []float64 {
	out := make([]float64, n+1)
	switch form {
	case 0:
		util.SoftmaxFloat64Slice(r, out, 1)
		return out[1:]
	case 1:
		vf.Assert((&transformation.TransformSoftmax{NClasses: n}).Transform(r, out, 0) == nil, "the right number of values is accepted")
		return out[:n]
	}
	m := &mk.LG{NumClass: n, MaxFeature: 1, Objective: "multiclass num_class:" + mk.I(n)}
	for _, v := range r {
		m.Trees = append(m.Trees, &mk.Tree{Leaf: []string{mk.FiniteTok(v)}})
	}
	vf.Assert(m.MustLoad(true).Predict([]float64{0, 0}, 0, out) == nil, "prediction succeeds")
	return out[:n]
}

func checkSoftmax(r, p []float64) {
	some := false
	for i := range p {
		vf.Assert(!math.IsNaN(p[i]), "a class probability is a number")
		vf.Assert(unit(p[i]), "a class probability lies in [0,1]")
		if p[i] > 0 {
			some = true
		}
	}
	vf.Assert(some, "some class has a positive probability")
	for i := range p {
		for j := 0; j < i; j++ {
			vf.Assert(!(r[i] < r[j]) || p[i] <= p[j], "class probabilities are ordered as the scores")
			vf.Assert(!(r[j] < r[i]) || p[j] <= p[i], "class probabilities are ordered as the scores")
		}
	}
}

// HSoftmax : 1..2 (thorough: 1..3) classes, every vector of finite scores, through the helper, the transformation and a loaded
// model (the model with up to 2 classes); exp and float arithmetic by their lemmas.
func HSoftmax() {
	vf.Lemmas()
	n := 1 + vf.Choose("classes-1", 2+vf.Tier())
	form := vf.Choose("form", 2)
	var r []float64
	for i := 0; i < n; i++ {
		r = append(r, finite("score"))
	}
	p := softmax(n, form, r)
	checkSoftmax(r, p)
	if r[0] > 800 {
		vf.Cover("large score")
	}
}

// HSoftmaxTable : 2..4 classes, every combination of 9 scores from -1e308 to 1e308, through helper, transformation and model,
// also in place.
func HSoftmaxTable() {
	tab := []float64{0, 1, -1e308, 1e308, -746, 710, 709.5, -0.5, 36}
	n := 2 + vf.Choose("classes-2", 2+vf.Tier())
	var r []float64
	for i := 0; i < n; i++ {
		r = append(r, tab[vf.Choose("score", len(tab))])
	}
	form := vf.Choose("form", 4)
	if form == 3 {
		v := append([]float64{}, r...)
		util.SoftmaxFloat64Slice(v, v, 0)
		checkSoftmax(r, v)
		return
	}
	p := softmax(n, form, r)
	checkSoftmax(r, p)
	s := 0.0
	for i := range p {
		s += p[i]
	}
	vf.Assert(vf.Close(s, 1, 1), "class probabilities sum to one")
}
