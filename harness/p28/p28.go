package p28

import (
	"math"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// dims checks what a model and its views report. Leaf counts are by group first.
func dims(e *leaves.Ensemble, name string, features, groups, iters int, leaves []int) {
	vs := []*struct {
		e   leavesModel
		out int
	}{{e, groups}, {e.EnsembleWithRawPredictions(), groups}, {e, groups}}
	if len(leaves) > 0 {
		vs = append(vs, &struct {
			e   leavesModel
			out int
		}{e.EnsembleWithLeafPredictions(), groups * iters})
	}
	for _, v := range vs {
		vf.Assert(v.e.Name() == name, "the name of the model")
		vf.Assert(v.e.NFeatures() == features, "the number of features is the one the file declares")
		vf.Assert(v.e.NRawOutputGroups() == groups, "the number of raw outputs is the one the file declares")
		vf.Assert(v.e.NEstimators() == iters, "the number of iterations is the one the file declares")
		vf.Assert(v.e.NOutputGroups() == v.out, "the number of outputs")
		nl := v.e.NLeaves()
		vf.Assert(len(nl) == len(leaves), "one count of leaves for every tree")
		for i := range nl {
			vf.Assert(nl[i] == leaves[i], "the leaf counts are those of the trees, ordered as leaf predictions are")
			nl[i] = -1 // the caller's
		}
	}
}

type leavesModel interface {
	Name() string
	NFeatures() int
	NRawOutputGroups() int
	NOutputGroups() int
	NEstimators() int
	NLeaves() []int
}

// counts are leaf counts of the trees in the order of the file, all of them different, and in the order of the report.
func counts(groups, iters int) (file, report []int) {
	n := groups * iters
	k := vf.Choose("rotation", n)
	report = make([]int, n)
	for j := 0; j < n; j++ {
		c := 1 + (j+k)%n
		file = append(file, c)
		report[j%groups*iters+j/groups] = c
	}
	return
}

// size is a number of groups and of iterations.
func size() (int, int) {
	return 1 + vf.Choose("groups-1", 3), 1 + vf.Choose("iterations-1", 2+vf.Tier())
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func lgTree(n, feature int) *mk.Tree {
	s := mk.Chain(n)
	t := &mk.Tree{}
	for i := 0; i < n-1; i++ {
		t.Left, t.Right = append(t.Left, mk.I(s.Left[i])), append(t.Right, mk.I(s.Right[i]))
		f := "0"
		if i == 0 {
			f = vf.IntTok(int64(feature))
		}
		t.Feature, t.Dec, t.Thr = append(t.Feature, f), append(t.Dec, "2"), append(t.Thr, mk.F(float64(i)))
	}
	for i := 0; i < n; i++ {
		t.Leaf = append(t.Leaf, mk.F(float64(i)))
	}
	return t
}

// HText : LightGBM text files with any max_feature_idx below 2^31, any feature of one tree, 1..3 classes, 1..2 (thorough: 3) iterations,
// trees of different numbers of leaves, one leaf included, averaging or not.
func HText() { light(false) }

// HJSON : the same for JSON dumps.
func HJSON() { light(true) }

func light(json bool) {
	max := vf.Int("max feature", 0, math.MaxInt32-1)
	f := vf.Int("feature", 0, math.MaxInt32-1)
	vf.Assume(f <= max)
	g, it := size()
	file, rep := counts(g, it)
	m := &mk.LG{NumClass: g, MaxTok: vf.IntTok(int64(max))}
	for _, n := range file {
		m.Trees = append(m.Trees, lgTree(n, f))
	}
	if json {
		m.Version = "v2"
		dims(m.MustLoadJSON(), "lightgbm.gbdt", max+1, g, it, rep)
		return
	}
	name := "lightgbm.gbdt"
	if m.Avg = vf.Choose("averaged", 2) == 1; m.Avg {
		name = "lightgbm.rf"
	}
	dims(m.MustLoad(false), name, max+1, g, it, rep)
}

func xgTree(n, feature int) *mk.XTree {
	t := &mk.XTree{}
	for i := 0; i < n-1; i++ {
		t.Nodes = append(t.Nodes, mk.XSplit(feature, true, float32(i+1), 2*i+1, 2*i+2), mk.XLeaf(float32(i)))
	}
	t.Nodes = append(t.Nodes, mk.XLeaf(-1))
	return t
}

// HXG : XGBoost trees, any number of features below 2^31, any num_class in the header (it is not the number of groups), any number of
// features declared by booster and trees up to that of the model.
func HXG() {
	n := vf.Int("features", 1, math.MaxInt32)
	f := vf.Int("feature", 0, math.MaxInt32)
	vf.Assume(f < n)
	b := vf.I32("booster features")
	vf.Assume(b >= 0 && int(b) <= n)
	g, it := size()
	file, rep := counts(g, it)
	m := &mk.XG{Features: uint32(n), NumFeature: b, NumClass: vf.I32("num class"), Groups: int32(g)}
	name := "xgboost.gbtree"
	if vf.Choose("dart", 2) == 1 {
		m.Gbm, name = "dart", "xgboost.dart"
	}
	for _, n := range file {
		t := xgTree(n, f)
		t.NumFeature = b
		m.Trees = append(m.Trees, t)
		m.Drop = append(m.Drop, 1)
	}
	dims(m.MustLoad(false), name, n, g, it, rep)
}

// HLinear : XGBoost linear models of 1..4 features and 1..3 groups.
func HLinear() {
	n, g := 1+vf.Choose("features-1", 4), 1+vf.Choose("groups-1", 3)
	m := &mk.XG{Features: uint32(n), NumFeature: int32(n), NumClass: vf.I32("num class"), Groups: int32(g), Gbm: "gblinear"}
	for i := 0; i < (n+1)*g; i++ {
		m.Weights = append(m.Weights, vf.F32("w"))
	}
	dims(m.MustLoad(false), "xgboost.gblinear", n, g, 1, nil)
}

// HSK : scikit-learn models, any number of features, any max_features_ up to it, any of the first 10 features in one tree, 2..4 classes (two classes are one group).
func HSK() {
	n := vf.Int("features", 1, math.MaxInt32)
	mf := vf.Int("max features", 1, math.MaxInt32)
	f := vf.Int("feature", 0, 9)
	vf.Assume(f < n && mf <= n)
	m := &mk.SK{Classes: 2 + vf.Choose("classes-2", 3), Features: n, MaxFeatures: mf}
	g, it := m.Groups(), 1+vf.Choose("iterations-1", 2)
	file, rep := counts(g, it)
	m.Prior = make([]float64, g)
	for j, k := range file {
		f := f
		if j > 0 {
			f = 0
		}
		s := mk.Chain(k)
		m.Trees = append(m.Trees, mk.SKFromShape(s, func(i int) int { return f * (1 - min(i, 1)) }, func(i int) float64 { return float64(i) }, func(p int) float64 { return float64(p) }))
	}
	dims(m.MustLoad(), "sklearn.ensemble.GradientBoostingClassifier", n, g, it, rep)
}

// HRow : models of 1..3 features of every kind that split on any of their features: a row of that width is enough for every way to
// predict, and all of them agree on whether it is.
func HRow() {
	n := 1 + vf.Choose("features-1", 3)
	g := 1 + vf.Choose("groups-1", 2)
	kind := vf.Choose("kind", 6)
	var fs []int
	for i := 0; i < g; i++ {
		fs = append(fs, vf.Int("feature", 0, n-1))
	}
	var e *leaves.Ensemble
	switch kind {
	case 0, 1:
		m := &mk.LG{NumClass: g, MaxFeature: n - 1}
		for _, f := range fs {
			m.Trees = append(m.Trees, lgTree(3, f))
		}
		if kind == 0 {
			e = m.MustLoad(false)
		} else {
			m.Version = "v2"
			e = m.MustLoadJSON()
		}
	case 2, 3:
		m := &mk.XG{Features: uint32(n), Groups: int32(g)}
		for _, f := range fs {
			m.Trees = append(m.Trees, xgTree(3, f))
			m.Drop = append(m.Drop, 0.5)
		}
		if kind == 3 {
			m.Gbm = "dart"
		}
		e = m.MustLoad(false)
	case 4:
		m := &mk.XG{Features: uint32(n), NumFeature: int32(n), Groups: int32(g), Gbm: "gblinear"}
		for i := 0; i < (n+1)*g; i++ {
			m.Weights = append(m.Weights, float32(i))
		}
		e = m.MustLoad(false)
	default:
		if g == 2 {
			g = 3
			fs = append(fs, 0)
		}
		m := &mk.SK{Classes: g, Features: n}
		if g == 1 {
			m.Classes = 2
		}
		m.Prior = make([]float64, g)
		for _, f := range fs {
			m.Trees = append(m.Trees, mk.SKStump(f, 0.5, 1, 2))
		}
		e = m.MustLoad()
	}
	vf.Assert(e.NFeatures() == n, "the number of features is the one the file declares")
	row := make([]float64, n)
	cols := make([]int, n)
	for i := range row {
		row[i] = vf.F64("x")
		cols[i] = i
	}
	a, b, c := make([]float64, g), make([]float64, g), make([]float64, g)
	vf.Assert(e.Predict(row, 0, a) == nil, "a row of the reported width is enough")
	vf.Assert(e.PredictDense(row, 1, n, b, 0, 1) == nil, "a dense row of the reported width is enough")
	vf.Assert(e.PredictCSR([]int{0, n}, cols, row, c, 0, 1) == nil, "a sparse row of the reported width is enough")
	for i := range a {
		vf.Assert(vf.Same(a[i], b[i]) && vf.Same(a[i], c[i]), "all ways to predict take the row of the reported width")
	}
	if g == 1 {
		vf.Assert(vf.Same(e.PredictSingle(row, 0), a[0]), "PredictSingle takes the row of the reported width")
	}
}

// HOddText : text trees of 2 and 3 (thorough: 4) declared leaves with any references between nodes and leaves: if the model is
// loaded nevertheless, it reports the leaves that the file declares.
func HOddText() {
	n := 2 + vf.Choose("leaves-2", 2+vf.Tier())
	t := &mk.Tree{Leaf: mk.Is(10)}
	for i := 1; i < n; i++ {
		t.Left, t.Right = append(t.Left, vf.IntTok(int64(vf.I32("left")))), append(t.Right, vf.IntTok(int64(vf.I32("right"))))
		t.Feature, t.Dec, t.Thr, t.Leaf = append(t.Feature, "0"), append(t.Dec, "2"), append(t.Thr, mk.I(i)), append(t.Leaf, mk.I(10+i))
	}
	e, err := (&mk.LG{MaxFeature: 0, Trees: []*mk.Tree{t}}).Load(false)
	if err != nil {
		return
	}
	c := e.NLeaves()
	vf.Assert(len(c) == 1 && c[0] == n, "the leaf count is the one the file declares")
	vf.Cover("loaded")
}
