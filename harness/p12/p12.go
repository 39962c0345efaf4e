package p12

import (
	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/transformation"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// chain is a tree of n leaves over one feature with thresholds 1, 2, ...: the leaf at position p has the value base+p.
// Kinds: 0 LightGBM text, 1 LightGBM JSON, 2 XGBoost gbtree, 3 XGBoost dart, 4 scikit-learn, 5 LightGBM averaged forest,
// 6 LightGBM and 7 XGBoost with a transformation.
func lgChain(f, n, base int) *mk.Tree {
	t := &mk.Tree{}
	for p := 0; p < n; p++ {
		t.Leaf = append(t.Leaf, mk.I(base+n-1-p)) // numbered from the right
	}
	for i := 0; i < n-1; i++ {
		t.Feature = append(t.Feature, mk.I(f))
		t.Thr = append(t.Thr, mk.I(i+1))
		t.Dec = append(t.Dec, "2")
		t.Left = append(t.Left, mk.I(^(n - 1 - i)))
		if i == n-2 {
			t.Right = append(t.Right, mk.I(^0))
		} else {
			t.Right = append(t.Right, mk.I(i+1))
		}
	}
	return t
}

func xgChain(f, n, base int) *mk.XTree {
	t := &mk.XTree{}
	for i := 0; i < n-1; i++ {
		t.Nodes = append(t.Nodes, mk.XSplit(f, true, float32(i+1), 2*i+1, 2*i+2), mk.XLeaf(float32(base+i)))
	}
	t.Nodes = append(t.Nodes, mk.XLeaf(float32(base+n-1)))
	return t
}

func skChain(f, n, base int) *mk.SKTree {
	t := &mk.SKTree{}
	for i := 0; i < n-1; i++ {
		t.Nodes = append(t.Nodes, mk.SKNode{Left: 2*i + 1, Right: 2*i + 2, Feature: f, Thr: float64(i + 1)}, mk.SKLeaf())
		t.Values = append(t.Values, -99, float64(base+i))
	}
	t.Nodes = append(t.Nodes, mk.SKLeaf())
	t.Values = append(t.Values, float64(base+n-1))
	return t
}

// model has one chain per class and iteration; the tree number j tests feature j.
func model(kind, classes, iters int, nl []int) *leaves.Ensemble {
	n := classes * iters
	switch kind {
	case 0, 1, 5, 6:
		m := &mk.LG{NumClass: classes, MaxFeature: n, Avg: kind == 5}
		if kind == 6 {
			m.Objective = "binary sigmoid:1"
			if classes > 1 {
				m.Objective = "multiclass num_class:" + mk.I(classes)
			}
		}
		if kind == 1 {
			m.Version = "v2"
		}
		for j := 0; j < n; j++ {
			m.Trees = append(m.Trees, lgChain(j, nl[j], 10*j))
		}
		if kind == 1 {
			return m.MustLoadJSON()
		}
		return m.MustLoad(kind >= 5)
	case 2, 3, 7:
		m := &mk.XG{Features: uint32(n + 1), Groups: int32(classes)}
		if kind == 3 {
			m.Gbm = "dart"
		}
		if kind == 7 {
			m.Base = 0.5
			if classes == 1 {
				m.Obj = "binary:logistic"
			}
		}
		for j := 0; j < n; j++ {
			m.Trees = append(m.Trees, xgChain(j, nl[j], 10*j))
			m.Drop = append(m.Drop, 1)
		}
		return m.MustLoad(kind == 7 && classes == 1)
	}
	m := &mk.SK{Classes: classes, Features: n + 1, Rate: "1.0", Prior: make([]float64, classes)}
	if classes == 1 {
		m.Classes = 2
	}
	for j := 0; j < n; j++ {
		m.Trees = append(m.Trees, skChain(j, nl[j], 10*j))
	}
	return m.MustLoad()
}

func pos(x float64, n int) int {
	p := 0
	for p < n-1 && x > float64(p+1) {
		p++
	}
	return vf.Concrete(p)
}

func offThresholds(x float64) {
	vf.Assume(x == x && x != 1 && x != 2 && x != 3) // equality is left open for XGBoost
}

// HLayout : every kind; 1..3 classes, 1..3 iterations, trees of 1..4 leaves; two rows that differ in the feature of one tree:
// only that tree's slot changes, and exactly when the leaf does; the reported leaf counts use the same slots.
func HLayout() {
	kind := vf.Choose("kind", 8)
	classes := 1 + vf.Choose("classes-1", 3)
	if kind == 4 && classes == 2 {
		classes = 3
	}
	iters := 1 + vf.Choose("iterations-1", 3)
	n := classes * iters
	at := vf.Choose("tree", n)
	vf.Assume(kind < 5 || vf.Tier() > 0 || classes != 2 && (at == 0 || at == n-1))
	nl := make([]int, n)
	for j := range nl {
		nl[j] = 1 + (j*3+kind+classes)%4
	}
	e := model(kind, classes, iters, nl)
	var v *leaves.Ensemble
	if kind > 5 && vf.Choose("raw first", 2) == 1 {
		v = e.EnsembleWithRawPredictions().EnsembleWithLeafPredictions()
	} else {
		v = e.EnsembleWithLeafPredictions()
	}
	vf.Assert(v.NOutputGroups() == n && v.NRawOutputGroups() == classes && v.NEstimators() == iters, "one output per tree")
	vf.Assert(v.Transformation().Type() == transformation.LeafIndex, "the view reports what it does")
	counts := v.NLeaves()
	vf.Assert(len(counts) == n && len(e.NLeaves()) == n, "one leaf count per tree")
	for k := 0; k < classes; k++ {
		for i := 0; i < iters; i++ {
			vf.Assert(counts[k*iters+i] == nl[i*classes+k], "leaf counts in the layout of the indices")
			vf.Assert(e.NLeaves()[k*iters+i] == nl[i*classes+k], "leaf counts of the model")
		}
	}
	row := make([]float64, n+1)
	for j := range row {
		row[j] = 0.5
	}
	y := vf.F64("x")
	offThresholds(y)
	one, two := make([]float64, n+1), make([]float64, n+1)
	for j := range one {
		one[j], two[j] = vf.F64("previous content"), 77
	}
	last := one[n]
	vf.Assert(v.Predict(row, 0, one) == nil, "leaf prediction accepts a row of the model's width")
	p := pos(y, nl[at])
	row[at] = y
	vf.Assert(v.Predict(row, iters, two) == nil, "asking for all iterations is fine")
	vf.Assert(two[n] == 77 && vf.Same(one[n], last), "nothing behind the outputs is written")
	for k := 0; k < classes; k++ {
		for i := 0; i < iters; i++ {
			s, j := k*iters+i, i*classes+k
			for _, g := range []float64{one[s], two[s]} {
				vf.Observe(g)
				vf.Assert(g >= 0 && g < float64(nl[j]) && g == float64(int(g)), "an index is an integer below the number of leaves")
			}
			if j == at {
				vf.Assert((one[s] == two[s]) == (p == 0), "the slot of a tree changes exactly when its leaf changes")
				if kind == 0 || kind > 4 && kind != 7 {
					vf.Assert(two[s] == float64(nl[j]-1-p), "the declared index")
				}
			} else {
				vf.Assert(one[s] == two[s], "the slots of the other trees do not change")
			}
		}
	}
	if n == 9 && p == 3 {
		vf.Cover("three classes and iterations")
	}
}

// HDistinct : one tree of 1..4 (thorough: 1..5) leaves, every kind and shape; any two rows: equal indices exactly for equal
// leaves, and equal leaves exactly for equal contributions.
func HDistinct() {
	kind := vf.Choose("kind", 5)
	n := 1 + vf.Choose("leaves-1", 4+vf.Tier())
	s := mk.ChooseShape(n)
	feat := func(i int) int { return n - 2 - i }
	var e *leaves.Ensemble
	switch kind {
	case 0, 1:
		t := &mk.Tree{}
		leaf := make([]int, n)
		for i := 0; i < n; i++ {
			leaf[i] = n - 1 - i
			t.Leaf = append(t.Leaf, mk.I(100+n-1-i))
		}
		for i := 0; i < n-1; i++ {
			t.Feature = append(t.Feature, mk.I(feat(i)))
			t.Thr = append(t.Thr, mk.I(i))
			t.Dec = append(t.Dec, "0")
			child := func(c int) string {
				if c < 0 {
					return mk.I(^leaf[-1-c])
				}
				return mk.I(c)
			}
			t.Left, t.Right = append(t.Left, child(s.Left[i])), append(t.Right, child(s.Right[i]))
		}
		m := &mk.LG{MaxFeature: n, Trees: []*mk.Tree{t}}
		if kind == 1 {
			m.Version = "v2"
			e = m.MustLoadJSON()
		} else {
			e = m.MustLoad(false)
		}
	case 2, 3:
		inner, leaf := mk.XFromShape(s, vf.Choose("order", 2))
		nodes := make([]mk.XNode, 2*n-1)
		num := func(c int) int {
			if c < 0 {
				return leaf[-1-c]
			}
			return inner[c]
		}
		for i := 0; i < n-1; i++ {
			nodes[inner[i]] = mk.XSplit(feat(i), false, float32(i), num(s.Left[i]), num(s.Right[i]))
		}
		for p := 0; p < n; p++ {
			nodes[leaf[p]] = mk.XLeaf(float32(100 + p))
		}
		m := &mk.XG{Features: uint32(n + 1), Trees: []*mk.XTree{{Nodes: nodes}}, Drop: []float32{0.5}}
		if kind == 3 {
			m.Gbm = "dart"
		}
		e = m.MustLoad(false)
	default:
		t := mk.SKFromShape(s, feat, func(i int) float64 { return float64(i) }, func(p int) float64 { return float64(100 + p) })
		e = (&mk.SK{Classes: 2, Features: n + 1, Rate: "0.5", Prior: []float64{1}, Trees: []*mk.SKTree{t}}).MustLoad()
	}
	v := e.EnsembleWithLeafPredictions()
	vf.Assert(len(v.NLeaves()) == 1 && v.NLeaves()[0] == n, "the number of leaves")
	walk := func() (int, float64, float64) {
		row := make([]float64, n+1)
		for i := 0; i < n-1; i++ {
			row[feat(i)] = vf.F64("x")
			vf.Assume(row[feat(i)] == row[feat(i)] && row[feat(i)] != float64(i))
		}
		at := 0
		if n == 1 {
			at = -1
		}
		for at >= 0 {
			if row[feat(at)] < float64(at) {
				at = s.Left[at]
			} else {
				at = s.Right[at]
			}
			at = vf.Concrete(at)
		}
		idx, val := []float64{-1}, []float64{-1}
		vf.Assert(v.Predict(row, 0, idx) == nil && e.Predict(row, 0, val) == nil, "both predictions succeed")
		vf.Observe(idx[0])
		vf.Assert(idx[0] >= 0 && idx[0] < float64(n) && idx[0] == float64(int(idx[0])), "an index is an integer below the number of leaves")
		return -1 - at, idx[0], val[0]
	}
	p, i, x := walk()
	q, j, y := walk()
	vf.Assert((p == q) == (i == j), "indices are equal exactly for equal leaves")
	vf.Assert((p == q) == (x == y), "contributions are equal exactly for equal leaves")
	if n == 4 && kind == 4 && p != q {
		vf.Cover("scikit-learn, four leaves")
	}
}

// HFewer : every kind and any number of iterations asked for: fewer than all is an error without outputs, by every call.
func HFewer() {
	kind := vf.Choose("kind", 8)
	classes := []int{1, 3}[vf.Choose("classes", 2)]
	iters := 1 + vf.Choose("iterations-1", 3)
	nl := make([]int, classes*iters)
	for j := range nl {
		nl[j] = 1 + j%4
	}
	v := model(kind, classes, iters, nl).EnsembleWithLeafPredictions()
	n := classes * iters
	row := make([]float64, n+1)
	for i := range row {
		row[i] = 1.5
	}
	asked := int(vf.I64("asked"))
	out := make([]float64, n)
	for i := range out {
		out[i] = 77
	}
	fewer := asked > 0 && asked < iters
	var err error
	call := vf.Choose("call", 3)
	switch call {
	case 0:
		err = v.Predict(row, asked, out)
	case 1:
		err = v.PredictDense(row, 1, n+1, out, asked, 1)
	default:
		err = v.PredictCSR([]int{0, 1}, []int{0}, []float64{1.5}, out, asked, 1)
	}
	vf.Assert((err != nil) == fewer, "asking for fewer iterations than the model has is an error, anything else is not")
	for i := range out {
		vf.Assert(!fewer || out[i] == 77, "an error writes no outputs")
		vf.Assert(fewer || out[i] >= 0 && out[i] < 4, "success writes all of them")
	}
	if n == 1 {
		s := v.PredictSingle(row, asked)
		vf.Assert(!fewer || s == 0, "PredictSingle returns 0")
		vf.Assert(fewer || call == 2 || s == out[0], "PredictSingle agrees")
	}
	if fewer {
		vf.Cover("fewer")
	}
}

// HLarge : every kind; a tree of 270 leaves; a row in each leaf has an index of its own, and so has any row within two leaves
// of the start, of the 256th leaf or of the end.
func HLarge() {
	const n = 270
	vf.Steps(60000000)
	kind := vf.Choose("kind", 5)
	v := model(kind, 1, 1, []int{n}).EnsembleWithLeafPredictions()
	vf.Assert(v.NLeaves()[0] == n, "the leaf count of a large tree")
	var index, owner [n]int
	for i := range index {
		g := mk.Predict(v, []float64{float64(i) + 0.5, 0.5})
		vf.Assert(g >= 0 && g < n && g == float64(int(g)), "an index is an integer below the number of leaves")
		index[i] = int(g)
		vf.Assert(owner[index[i]] == 0, "different leaves of a large tree have different indices")
		owner[index[i]] = 1
	}
	b := []int{0, 254, n - 4}[vf.Choose("window", 3)]
	x := vf.F64("x")
	vf.Assume(x > float64(b) && x < float64(b+4))
	at := b
	for k := 1; k < 4; k++ {
		vf.Assume(x != float64(b+k))
		if x > float64(b+k) {
			at = b + k
		}
	}
	g := mk.Predict(v, []float64{x, 0.5})
	vf.Observe(g)
	vf.Assert(g == float64(index[at]), "rows of one leaf have one index")
}
