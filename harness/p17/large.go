package p17

import (
	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HManyCalls : every kind of model and view; 1100 predictions on other rows and 20 views in between do not change what is
// predicted for a row of any values.
func HManyCalls() {
	vf.Steps(60000000)
	z, e, _, n := mk.ChooseZoo()
	row := []float64{vf.F64("x"), 0.25, -1}
	a, b := make([]float64, n), make([]float64, n)
	vf.Assert(e.Predict(row, 0, a) == nil, "the first prediction succeeds")
	other := []float64{1, 2, 3}
	for i := 0; i < 1100; i++ {
		other[i%3] = float64(i%7) - 2.5
		vf.Assert(e.Predict(other, 0, b) == nil, "every prediction succeeds")
		if i%55 == 0 {
			v := e.EnsembleWithRawPredictions()
			vf.Assert(v.NOutputGroups() == z.Classes, "a view reports its outputs")
		}
	}
	vf.Assert(e.Predict(row, 0, b) == nil, "the last prediction succeeds")
	for k := range a {
		vf.Assert(vf.Same(a[k], b[k]), "many predictions later the model predicts the same")
	}
}

// HTwoModels : two models of any two kinds; loading and using the second does not change what the first predicts, and the
// second predicts what it predicts alone.
func HTwoModels() {
	k, l := vf.Choose("first", len(mk.Zoos)), vf.Choose("second", len(mk.Zoos))
	row := []float64{vf.F64("x"), 0.25, -1}
	one := func(e *leaves.Ensemble, n int) []float64 {
		out := make([]float64, n)
		vf.Assert(e.Predict(row, 0, out) == nil, "prediction succeeds")
		return out
	}
	e := mk.Zoos[k].Load()
	a := one(e, mk.Zoos[k].Outputs)
	f := mk.Zoos[l].LoadN(1)
	b := one(f, mk.Zoos[l].Outputs)
	c := one(e, mk.Zoos[k].Outputs)
	d := one(mk.Zoos[l].LoadN(1), mk.Zoos[l].Outputs)
	for i := range a {
		vf.Assert(vf.Same(a[i], c[i]), "loading and using another model does not change a model")
	}
	for i := range b {
		vf.Assert(vf.Same(b[i], d[i]), "a model loaded after another one is what it is alone")
	}
}
