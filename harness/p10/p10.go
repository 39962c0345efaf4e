package p10

import (
	"math"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/transformation"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

const (
	raw = iota
	logistic
	softmax
	exponential
)

type objective struct {
	text    string
	kind    int
	classes int
}

var objectives = []objective{
	{"regression", raw, 1}, {"regression_l1", raw, 1}, {"regression l2", raw, 2}, {"binary sigmoid:1", logistic, 1},
	{"poisson", exponential, 1}, {"gamma", exponential, 1}, {"tweedie", exponential, 1},
	{"multiclass num_class:2", softmax, 2}, {"multiclass num_class:3", softmax, 3}, {"multiclass num_class:5", softmax, 5},
}

// apply is the objective's function.
func apply(kind int, r []float64) []float64 {
	o := make([]float64, len(r))
	switch kind {
	case raw:
		copy(o, r)
	case logistic:
		o[0] = 1 / (1 + math.Exp(-r[0]))
	case exponential:
		o[0] = math.Exp(r[0])
	case softmax:
		m := r[0]
		for _, v := range r {
			if v > m {
				m = v
			}
		}
		s := 0.0
		for i, v := range r {
			o[i] = math.Exp(v - m)
			s += o[i]
		}
		for i := range o {
			o[i] /= s
		}
	}
	return o
}

var types = []transformation.TransformType{transformation.Raw, transformation.Logistic, transformation.Softmax, transformation.Exponential}
var names = []string{"raw", "logistic", "softmax", "exponential"}

// reported says that what the transformation reports is what kind is.
func reported(e *leaves.Ensemble, kind, n int) {
	t := e.Transformation()
	vf.Assert(t.Type() == types[kind], "the reported type is the objective's")
	vf.Assert(t.Name() == names[kind] && t.Type().Name() == names[kind], "the reported name is the objective's")
	vf.Assert(t.NOutputGroups() == n && e.NOutputGroups() == n, "the reported output count is the number of outputs")
}

// outputs predicts through every entry point; all have to write exactly n numbers.
func outputs(e *leaves.Ensemble, n int) []float64 {
	row := []float64{0, 0}
	out := make([]float64, n+1)
	out[n] = 77
	vf.Assert(e.Predict(row, 0, out) == nil, "prediction succeeds")
	vf.Assert(out[n] == 77, "nothing is written behind the outputs")
	dense := make([]float64, 2*n)
	vf.Assert(e.PredictDense([]float64{0, 0, 0, 0}, 2, 2, dense, 0, 1) == nil, "dense prediction succeeds")
	csr := make([]float64, 2*n)
	vf.Assert(e.PredictCSR([]int{0, 1, 1}, []int{0}, []float64{0}, csr, 0, 1) == nil, "sparse prediction succeeds")
	for i := 0; i < n; i++ {
		vf.Assert(vf.Same(dense[i], out[i]) && vf.Same(dense[n+i], out[i]) && vf.Same(csr[i], out[i]) && vf.Same(csr[n+i], out[i]), "all entry points transform alike")
	}
	if n == 1 {
		vf.Assert(vf.Same(e.PredictSingle(row, 0), out[0]), "the single entry point transforms alike")
	}
	return out[:n]
}

func lg(o objective, avg bool, vals []string) *mk.LG {
	m := &mk.LG{Objective: o.text, NumClass: o.classes, MaxFeature: 1, Avg: avg}
	for _, v := range vals {
		m.Trees = append(m.Trees, &mk.Tree{Leaf: []string{v}})
	}
	// a second iteration that leaves the sums or the averages as they are
	for _, v := range vals {
		if !avg {
			v = "0"
		}
		m.Trees = append(m.Trees, &mk.Tree{Leaf: []string{v}})
	}
	return m
}

func close(a, b []float64, msg string) {
	for i := range a {
		vf.Observe(a[i])
		vf.Assert(vf.Close(a[i], b[i], math.Abs(b[i])), msg)
	}
}

// views checks a model loaded with and without transformation whose raw scores are r.
func views(with, without *leaves.Ensemble, kind int, r []float64) {
	n := len(r)
	reported(with, kind, n)
	reported(without, raw, n)
	close(outputs(with, n), apply(kind, r), "outputs are the objective's function of the raw scores")
	close(outputs(without, n), r, "without transformation the outputs are the raw scores")
	v := with
	if vf.Choose("of the raw model", 2) == 1 {
		v = without
	}
	for i := 0; i < 3; i++ {
		if vf.Choose("view", 2) == 0 {
			v = v.EnsembleWithRawPredictions()
			reported(v, raw, n)
			close(outputs(v, n), r, "a raw view gives the raw scores, of whatever view it is")
			continue
		}
		v = v.EnsembleWithLeafPredictions()
		t := v.Transformation()
		vf.Assert(t.Type() == transformation.LeafIndex && t.Name() == "leaf_index", "a leaf view reports leaf indices")
		vf.Assert(t.NOutputGroups() == 2*n && v.NOutputGroups() == 2*n, "a leaf view of two iterations reports one index per tree")
		close(outputs(v, 2*n), make([]float64, 2*n), "trees with one leaf have leaf 0, of whatever view it is")
		vf.Cover("leaf view")
	}
	vf.Assert(v.NRawOutputGroups() == n && v.NEstimators() == 2, "views keep the raw dimensions")
	reported(with, kind, n)
	close(outputs(with, n), apply(kind, r), "views leave the model's transformation alone")
}

// HLightGBM : every supported LightGBM objective (1..5 classes), raw scores from 9 values, one per class; with and without
// transformation, raw and leaf views.
func HLightGBM() {
	o := objectives[vf.Choose("objective", len(objectives))]
	tab := []float64{0, 1, -1, 0.3, 5.5, -20, 40, -700, 600}
	k := vf.Choose("value", len(tab))
	step := 0
	if o.classes > 1 {
		step = 1 + vf.Choose("step", 3)
	}
	var r []float64
	for i := 0; i < o.classes; i++ {
		r = append(r, tab[(k+i*step)%len(tab)])
	}
	m := lg(o, false, mk.Fs(r...))
	views(m.MustLoad(true), m.MustLoad(false), o.kind, r)
	if o.kind == softmax && r[0] == 600 {
		vf.Cover("large scores")
	}
}

// HSymbolicScore : one output, any finite raw score; exp uninterpreted.
func HSymbolicScore() {
	o := objectives[[]int{0, 3, 4, 5, 6}[vf.Choose("objective", 5)]]
	x := vf.F64("raw score")
	m := lg(o, false, []string{mk.FiniteTok(x)})
	e := m.MustLoad(true)
	got := mk.Predict(e, []float64{0, 0})
	r := mk.Predict(e.EnsembleWithRawPredictions(), []float64{0, 0})
	vf.Assert(r == x, "the raw view gives any raw score")
	want := apply(o.kind, []float64{r})[0]
	vf.Assert(vf.Close(got, want, math.Abs(want)), "the output is the objective's function of any raw score")
	if o.kind == logistic && x > 3 {
		vf.Cover("logistic")
	}
}

// HSqrt : objectives whose outputs are the signed squares of the raw scores; the model is refused or gives these squares.
func HSqrt() {
	o := objective{[]string{"regression sqrt", "regression_l1 sqrt"}[vf.Choose("objective", 2)], raw, 1}
	x := vf.F64("raw score")
	m := lg(o, false, []string{mk.FiniteTok(x)})
	e, err := m.Load(true)
	if err == nil {
		got := mk.Predict(e, []float64{0, 0})
		vf.Assert(vf.Close(got, math.Copysign(x*x, x), x*x), "the output is the objective's function of any raw score")
	}
	raw := m.MustLoad(false)
	vf.Assert(mk.Predict(raw, []float64{0, 0}) == x, "raw scores need no objective")
}

// HForest : random forests with any objective text, transformation requested: identity.
func HForest() {
	o := objectives[vf.Choose("objective", len(objectives))]
	r := []float64{0.25, -3, 7, 11, 0.5}[:o.classes]
	m := lg(o, true, mk.Fs(r...))
	views(m.MustLoad(true), m.MustLoad(false), raw, r)
}

// HXGBoost : binary:logistic for gbtree, dart and gblinear, scores from 7 values, and other objectives without transformation.
func HXGBoost() {
	v := []float32{0, 1, -2.5, 30, -40, 0.125, 600}[vf.Choose("value", 7)]
	kind := vf.Choose("booster", 3)
	m := &mk.XG{Features: 2, Obj: "binary:logistic", Trees: []*mk.XTree{mk.XStump(0, true, 0.5, v, 3)}}
	switch kind {
	case 1:
		m.Gbm, m.Drop = "dart", []float32{1}
	case 2:
		m = &mk.XG{Gbm: "gblinear", Features: 2, NumFeature: 2, Obj: "binary:logistic", Weights: []float32{1, 2, v}}
	}
	with, without := m.MustLoad(true), m.MustLoad(false)
	r := []float64{float64(v)}
	reported(with, logistic, 1)
	reported(without, raw, 1)
	row := []float64{0, 0}
	close([]float64{mk.Predict(with, row)}, apply(logistic, r), "sigmoid of the raw score")
	close([]float64{mk.Predict(without, row)}, r, "without transformation the raw score")
	close([]float64{mk.Predict(with.EnsembleWithRawPredictions(), row)}, r, "the raw view gives the raw score")
	reported(with.EnsembleWithRawPredictions(), raw, 1)
	vf.Assert(vf.Same(with.PredictSingle(row, 0), mk.Predict(with, row)), "the single entry point transforms alike")
}

// HXGBoostClasses : XGBoost models of 1..3 classes with any objective name load without transformation and give raw scores.
func HXGBoostClasses() {
	n := 1 + vf.Choose("classes-1", 3)
	m := &mk.XG{Features: 2, Groups: int32(n), Obj: []string{"multi:softprob", "reg:linear", "rank:pairwise", "x"}[vf.Choose("objective", 4)]}
	if vf.Choose("linear", 2) == 1 {
		m.Gbm, m.NumFeature = "gblinear", 2
		for i := 0; i < 3*n; i++ {
			m.Weights = append(m.Weights, float32(i))
		}
	} else {
		for i := 0; i < n; i++ {
			m.Trees = append(m.Trees, mk.XStump(0, true, 0.5, float32(i), 9))
		}
	}
	e := m.MustLoad(false)
	reported(e, raw, n)
	reported(e.EnsembleWithRawPredictions(), raw, n)
	vf.Assert(e.NRawOutputGroups() == n, "classes")
}

// HJSON : JSON dumps are loaded raw.
func HJSON() {
	n := 1 + vf.Choose("classes-1", 3)
	m := lg(objective{"x", raw, n}, false, mk.Fs(1, 2, 3)[:n])
	e := m.MustLoadJSON()
	reported(e, raw, n)
	close(outputs(e, n), []float64{1, 2, 3}[:n], "raw scores")
}

// HNames : the name of every transformation type; other values are "unknown".
func HNames() {
	want := map[transformation.TransformType]string{transformation.Raw: "raw", transformation.Logistic: "logistic", transformation.Softmax: "softmax",
		transformation.LeafIndex: "leaf_index", transformation.Exponential: "exponential"}
	t := transformation.TransformType(vf.Int("type", -3, 9))
	got := t.Name()
	w, ok := want[t]
	if !ok {
		w = "unknown"
	}
	vf.Assert(got == w, "the name of a transformation type")
}

// HDirect : the transformation objects themselves: a wrong number of raw values is an error and writes nothing; values are
// placed at the start index asked for.
func HDirect() {
	n := 1 + vf.Choose("values-1", 3)
	start := vf.Choose("start", 3)
	kind := vf.Choose("kind", 5)
	size := 1 + vf.Choose("size-1", 3)
	var t transformation.Transform
	want := 1
	k := kind
	switch kind {
	case raw:
		t = &transformation.TransformRaw{NumOutputGroups: n}
		want = n
	case logistic:
		t = &transformation.TransformLogistic{}
	case softmax:
		t = &transformation.TransformSoftmax{NClasses: size}
		want = size
	case exponential:
		t = &transformation.TransformExponential{}
	default:
		t = &transformation.TransformLeafIndex{NumOutputGroups: n}
		want = n
		k = raw
	}
	r := []float64{0.5, -1, 2}[:n]
	out := []float64{9, 9, 9, 9, 9, 9, 9}
	err := t.Transform(r, out, start)
	vf.Assert(t.NOutputGroups() == want, "output count")
	vf.Assert((err == nil) == (n == want), "a wrong number of raw values is an error")
	ref := apply(k, r)
	for i := range out {
		if err == nil && i >= start && i < start+n {
			vf.Assert(vf.Close(out[i], ref[i-start], 1), "transformed values at the start index")
		} else {
			vf.Assert(out[i] == 9, "nothing else is written")
		}
	}
}
