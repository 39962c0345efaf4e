package mk

import (
	"math"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// Zoo is a collection of small models with 3 features, one of each kind.
type Zoo struct {
	Name    string
	Classes int
	Iters   int
	Absent  float64 // what a feature that is absent from a sparse row means
	Linear  bool
	Trans   bool // has a transformation
	Outputs int  // of the model as loaded
	LoadN   func(iters int) *leaves.Ensemble
}

func lgZooTree(k int) *Tree {
	d := float64(k)
	switch k % 3 {
	case 0: // 3 leaves, NaN and zero as missing
		return &Tree{Left: Is(1, ^0), Right: Is(^2, ^1), Feature: Is(k%3, (k+1)%3), Dec: Is(10, 4), Thr: Fs(-0.5-d, -1.5), Leaf: Fs(1+d, 2.5+d, -4)}
	case 1: // 2 leaves, categorical
		return &Tree{Left: Is(^0), Right: Is(^1), Feature: Is(2), Dec: Is(1), Thr: Is(0), Leaf: Fs(0.25, -0.75-d), NumCat: 1, CatBound: Is(0, 2), CatThr: Is(10, 1),
			CatList: []string{"1||3||32"}}
	}
	return &Tree{Left: Is(^1, 2, ^2), Right: Is(1, ^3, ^0), Feature: Is(1, 0, 2), Dec: Is(2, 8, 0), Thr: Fs(1, 2, 3+d), Leaf: Fs(0.125, 8, 3, -2+d)}
}

func lgZoo(classes, iters int, m LG) *LG {
	m.NumClass, m.MaxFeature = classes, 2
	for j := 0; j < classes*iters; j++ {
		m.Trees = append(m.Trees, lgZooTree(j))
	}
	return &m
}

func xgZoo(classes, iters int, m XG) *XG {
	m.Features, m.Groups, m.Base = 3, int32(classes), 0.5
	for j := 0; j < classes*iters; j++ {
		d := float32(j)
		switch j % 3 {
		case 0:
			m.Trees = append(m.Trees, &XTree{Nodes: []XNode{XSplit(j%3, true, 0.5+d, 1, 2), XSplit((j+1)%3, false, -1, 3, 4), XLeaf(2 + d), XLeaf(-1), XLeaf(0.5)}})
		case 1:
			m.Trees = append(m.Trees, XStump(2, false, 1, -0.5-d, 0.75))
		default:
			m.Trees = append(m.Trees, &XTree{Nodes: []XNode{XSplit(0, false, -2, 2, 1), XSplit(1, true, 3, 4, 3), XLeaf(1.5), XLeaf(-3), XLeaf(d)}})
		}
		m.Drop = append(m.Drop, 0.25+d)
	}
	return &m
}

// Load reads the model.
func (z Zoo) Load() *leaves.Ensemble { return z.LoadN(z.Iters) }

// View is a view of a loaded model with its number of outputs: 0 as loaded, 1 raw, 2 leaf indices.
func (z Zoo) View(e *leaves.Ensemble, view, iters int) (*leaves.Ensemble, int) {
	switch view {
	case 1:
		return e.EnsembleWithRawPredictions(), z.Classes
	case 2:
		return e.EnsembleWithLeafPredictions(), z.Classes * iters
	}
	return e, z.Outputs
}

// Zoos are the models.
var Zoos = []Zoo{
	{"lightgbm regression", 1, 3, 0, false, false, 1, func(n int) *leaves.Ensemble { return lgZoo(1, n, LG{}).MustLoad(true) }},
	{"lightgbm multiclass", 3, 2, 0, false, true, 3, func(n int) *leaves.Ensemble {
		return lgZoo(3, n, LG{Objective: "multiclass num_class:3"}).MustLoad(true)
	}},
	{"lightgbm binary", 1, 3, 0, false, true, 1, func(n int) *leaves.Ensemble { return lgZoo(1, n, LG{Objective: "binary sigmoid:1"}).MustLoad(true) }},
	{"lightgbm random forest", 2, 2, 0, false, false, 2, func(n int) *leaves.Ensemble { return lgZoo(2, n, LG{Avg: true}).MustLoad(true) }},
	{"lightgbm json", 2, 2, 0, false, false, 2, func(n int) *leaves.Ensemble { return lgZoo(2, n, LG{Version: "v2"}).MustLoadJSON() }},
	{"xgboost gbtree", 3, 2, math.NaN(), false, false, 3, func(n int) *leaves.Ensemble { return xgZoo(3, n, XG{}).MustLoad(false) }},
	{"xgboost dart", 1, 3, math.NaN(), false, true, 1, func(n int) *leaves.Ensemble {
		return xgZoo(1, n, XG{Gbm: "dart", Obj: "binary:logistic"}).MustLoad(true)
	}},
	{"xgboost gblinear", 2, 1, 0, true, false, 2, func(n int) *leaves.Ensemble {
		return (&XG{Features: 3, NumFeature: 3, Groups: 2, Base: 0.5, Gbm: "gblinear", Weights: []float32{1, -2, 0.5, 3, -0.25, 4, 0.75, -1}}).MustLoad(false)
	}},
	{"scikit-learn", 3, 2, 0, false, false, 3, func(n int) *leaves.Ensemble {
		m := &SK{Classes: 3, Features: 3, Rate: "0.5", Prior: []float64{1, -1, 0.25}}
		for j := 0; j < 3*n; j++ {
			d := float64(j)
			if j%2 == 0 {
				m.Trees = append(m.Trees, SKStump(j%3, d-1.5, 2+d, -1))
			} else {
				m.Trees = append(m.Trees, &SKTree{Nodes: []SKNode{{1, 4, 0, 1}, {2, 3, 1, d}, SKLeaf(), SKLeaf(), SKLeaf()}, Values: []float64{9, 9, 1, d, -2}})
			}
		}
		return m.MustLoad()
	}},
	{"xgboost gblinear logistic", 1, 1, 0, true, true, 1, func(n int) *leaves.Ensemble {
		return (&XG{Features: 3, NumFeature: 3, Groups: 1, Base: 0.25, Gbm: "gblinear", Obj: "binary:logistic", Weights: []float32{1, -2, 0.5, 3}}).MustLoad(true)
	}},
}

// ChooseZoo is one of the models and one of its views: 0 as loaded, 1 raw, 2 leaf indices. n is its number of outputs.
func ChooseZoo() (z Zoo, e *leaves.Ensemble, view, n int) {
	z = Zoos[vf.Choose("model", len(Zoos))]
	views := 3
	if z.Linear {
		views = 2
	}
	view = vf.Choose("view", views)
	vf.Assume(view != 1 || z.Trans)
	e, n = z.View(z.Load(), view, z.Iters)
	return
}
