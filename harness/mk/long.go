package mk

// LongFiles is the number of long files.
const LongFiles = 7

// LongFile is a model file with long arrays or many trees, of two features.
func LongFile(k int) FileOf {
	switch k {
	case 0: // 24000 weights
		m := &XG{Features: 11999, NumFeature: 11999, Groups: 2, Base: 0.5, Gbm: "gblinear"}
		for i := 0; i < 24000; i++ {
			m.Weights = append(m.Weights, float32(i%1000))
		}
		f := binary("xgboost gblinear", KindLinear, m)
		f.Features = 11999
		return f
	case 1: // a chain of 1500 leaves and a small tree
		t := &XTree{}
		for i := 0; i < 1500; i++ {
			t.Nodes = append(t.Nodes, XSplit(i%3, true, float32(i+1), 2*i+1, 2*i+2), XLeaf(float32(i)))
		}
		t.Nodes = append(t.Nodes, XLeaf(-1))
		return binary("xgboost gbtree", KindXG, &XG{Features: 3, Trees: []*XTree{t, XStump(0, true, 1, 2, 3)}})
	case 2: // 400 small trees with their weights
		m := &XG{Features: 3, Gbm: "dart", Groups: 2}
		for i := 0; i < 400; i++ {
			m.Trees = append(m.Trees, &XTree{Nodes: []XNode{XLeaf(float32(i))}})
			m.Drop = append(m.Drop, float32(i%3))
		}
		return binary("xgboost dart", KindXG, m)
	case 3: // lines of more than 65536 bytes
		t := &Tree{}
		for i := 0; i < 9000; i++ {
			t.Left, t.Right = append(t.Left, I(^i)), append(t.Right, I(i+1))
			t.Feature, t.Dec, t.Thr, t.Leaf = append(t.Feature, I(i%3)), append(t.Dec, "2"), append(t.Thr, I(1000+i)), append(t.Leaf, I(10000000+i))
		}
		t.Right[8999] = I(^9000)
		t.Leaf = append(t.Leaf, "-1")
		return text("lightgbm", false, &LG{MaxFeature: 2, Trees: []*Tree{t, lgZooTree(1)}})
	case 4: // 200 small trees
		m := &LG{MaxFeature: 2, NumClass: 2}
		for i := 0; i < 200; i++ {
			m.Trees = append(m.Trees, &Tree{Leaf: Is(i)})
		}
		return text("lightgbm", false, m)
	case 5: // a tree of 700 nodes
		t := &SKTree{}
		for i := 0; i < 350; i++ {
			t.Nodes = append(t.Nodes, SKNode{2*i + 1, 2*i + 2, i % 3, float64(i) + 0.5}, SKLeaf())
			t.Values = append(t.Values, 0.5, float64(i))
		}
		t.Nodes, t.Values = append(t.Nodes, SKLeaf()), append(t.Values, -1)
		b := (&SK{Classes: 2, Features: 3, Prior: []float64{0.5}, Trees: []*SKTree{t}}).Bytes()
		return FileOf{"scikit-learn", KindSK, false, b, len(b), 3}
	}
	m := &LG{MaxFeature: 2}
	for i := 0; i < 60; i++ {
		m.Trees = append(m.Trees, lgZooTree(i))
	}
	b := []byte(m.JSON())
	return FileOf{"lightgbm json", KindJSON, false, b, len(b) - 1, 3}
}
