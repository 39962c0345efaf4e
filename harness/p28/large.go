package p28

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HLarge : models of 300 classes, of 300 iterations, and of a tree of 300 leaves between small ones (one tree of other size at any
// of some places), of every kind.
func HLarge() {
	vf.Steps(400000000)
	kind := vf.Choose("kind", 6)
	g, it := 1, 300
	switch vf.Choose("shape", 4) {
	case 1:
		g, it = 300, 1
	case 2:
		g, it = 3, 100
	case 3:
		g, it = 3, 1
	}
	at := []int{1, 256, 299}[vf.Choose("at", 3)]
	vf.Assume(at < g*it)
	file, rep := make([]int, g*it), make([]int, g*it)
	for j := range file {
		n := 1 + j%2
		if j == at {
			n = 3
			if g*it == 3 {
				n = 300
			}
		}
		file[j] = n
		rep[j%g*it+j/g] = n
	}
	switch kind {
	case 0, 1:
		m := &mk.LG{NumClass: g, MaxFeature: 400}
		for _, n := range file {
			m.Trees = append(m.Trees, lgTree(n, 400))
		}
		if kind == 0 {
			dims(m.MustLoad(false), "lightgbm.gbdt", 401, g, it, rep)
			return
		}
		m.Version = "v2"
		dims(m.MustLoadJSON(), "lightgbm.gbdt", 401, g, it, rep)
	case 2, 3:
		m := &mk.XG{Features: 401, NumFeature: 401, Groups: int32(g)}
		name := "xgboost.gbtree"
		if kind == 3 {
			m.Gbm, name = "dart", "xgboost.dart"
		}
		for _, n := range file {
			t := xgTree(n, 400)
			t.NumFeature = 401
			m.Trees = append(m.Trees, t)
			m.Drop = append(m.Drop, 1)
		}
		dims(m.MustLoad(false), name, 401, g, it, rep)
	case 4:
		m := &mk.XG{Features: 401, NumFeature: 401, Groups: int32(g), Gbm: "gblinear", Weights: make([]float32, 402*g)}
		dims(m.MustLoad(false), "xgboost.gblinear", 401, g, 1, nil)
	default:
		m := &mk.SK{Classes: g, Features: 401, Prior: make([]float64, g)}
		if g == 1 {
			m.Classes = 2
		}
		for _, n := range file {
			m.Trees = append(m.Trees, mk.SKFromShape(mk.Chain(n), func(i int) int { return 400 * (1 - min(i, 1)) }, func(i int) float64 { return float64(i) }, func(p int) float64 { return float64(p) }))
		}
		dims(m.MustLoad(), "sklearn.ensemble.GradientBoostingClassifier", 401, g, it, rep)
	}
}
