package p06

import (
	"math"

	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

func finite(f float32) bool { return f-f == 0 }

// goes is the side the row takes; the case of a value equal to the threshold is excluded.
func goesLeft(x float64, cond float32, defLeft bool) bool {
	if x != x {
		return defLeft
	}
	return x < float64(cond)
}

// HOneSplit : one split on any of 3 features; every finite float32 threshold, every float64 value but the threshold itself,
// both default sides, any statistics and parent words.
func HOneSplit() {
	cond := vf.F32("threshold")
	vf.Assume(finite(cond))
	def := vf.Choose("default left", 2) == 1
	f := vf.Choose("feature", 3)
	t := mk.XStump(f, def, cond, 10, 20)
	t.Stat = vf.U32("statistics")
	t.Nodes[0].Parent = vf.I32("parent")
	t.Nodes[1].SIndex = vf.U32("leaf split word")
	e := (&mk.XG{Features: 3, Trees: []*mk.XTree{t}}).MustLoad(false)
	row := []float64{0.25, 0.25, 0.25}
	x := vf.F64("x")
	vf.Assume(x != float64(cond))
	row[f] = x
	got := mk.Predict(e, row)
	vf.Observe(got)
	vf.Assert(got == 10 || got == 20, "one of the leaves is reached")
	vf.Assert((got == 10) == goesLeft(x, cond, def), "the value goes to XGBoost's side")
	if x != x {
		vf.Cover("missing value")
	}
	if math.IsInf(x, 0) {
		vf.Cover("infinite value")
	}
}

// HSplitWord : any split word of a model with 1..4 features: the feature is the low 31 bits and the default side the top bit.
func HSplitWord() {
	w := vf.U32("split word")
	vf.Assume(w&0x7fffffff < 4)
	t := mk.XStump(0, false, 0.5, 10, 20)
	t.Nodes[0].SIndex = w
	e := (&mk.XG{Features: 4, Trees: []*mk.XTree{t}}).MustLoad(false)
	row := make([]float64, 4)
	for i := range row {
		row[i] = vf.F64("x")
		vf.Assume(row[i] != 0.5)
	}
	got := mk.Predict(e, row)
	vf.Observe(got)
	vf.Assert((got == 10) == goesLeft(row[w&0x7fffffff], 0.5, w>>31 == 1), "feature and default side come from the split word")
}

func tree(n int, s mk.Shape, order int, def []bool) *mk.XTree {
	inner, leaf := mk.XFromShape(s, order)
	num := func(c int) int {
		if c < 0 {
			return leaf[-1-c]
		}
		return inner[c]
	}
	t := &mk.XTree{Nodes: make([]mk.XNode, 2*n-1)}
	for i := 0; i < n-1; i++ {
		t.Nodes[inner[i]] = mk.XSplit(n-2-i, def[i], float32(i)+0.5, num(s.Left[i]), num(s.Right[i]))
	}
	for i := 0; i < n; i++ {
		t.Nodes[leaf[i]] = mk.XLeaf(float32(100 + i))
	}
	return t
}

// HShapes : one tree of 1..5 (thorough: 1..6) leaves, every shape, four node numberings (level order, depth first, leaves in
// front, reversed) and every order of the inner nodes among themselves, a feature, a default side and a threshold of its own
// at every node, symbolic values, missing ones included.
func HShapes() {
	n := 1 + vf.Choose("leaves-1", 5+vf.Tier())
	s := mk.ChooseShape(n)
	order := 0
	if n > 1 {
		order = vf.Choose("numbering", 4)
	}
	def := make([]bool, n)
	mix := vf.Choose("default sides", 2)
	for i := range def {
		def[i] = i%2 == mix
	}
	e := (&mk.XG{Features: uint32(n), Trees: []*mk.XTree{tree(n, s, order, def)}}).MustLoad(false)
	row := make([]float64, n)
	for i := range row {
		row[i] = vf.F64("x")
	}
	want := 0
	if n > 1 {
		at := 0
		for at >= 0 {
			x := row[n-2-at]
			vf.Assume(x != float64(at)+0.5)
			if goesLeft(x, float32(at)+0.5, def[at]) {
				at = s.Left[at]
			} else {
				at = s.Right[at]
			}
			at = vf.Concrete(at)
		}
		want = -1 - at
	}
	got := mk.Predict(e, row)
	vf.Observe(got)
	vf.Assert(got == 100+float64(want), "the value of the leaf reached")
	vf.Assert(e.NLeaves()[0] == n, "the number of leaves")
	if n == 5 {
		vf.Cover("five leaves")
	}
}

// HLeafValue : any finite float32 leaf value, a single leaf or a leaf under a split, zero base score.
func HLeafValue() {
	v, u := vf.F32("leaf value"), vf.F32("other leaf value")
	vf.Assume(finite(v) && finite(u))
	t := &mk.XTree{Nodes: []mk.XNode{mk.XLeaf(v)}}
	want := float64(v)
	x := 0.0
	switch vf.Choose("place", 3) {
	case 1:
		t = mk.XStump(0, true, 0.5, v, u)
	case 2:
		t = mk.XStump(0, true, 0.5, u, v)
		x = 1
	}
	e := (&mk.XG{Features: 2, Trees: []*mk.XTree{t}}).MustLoad(false)
	got := mk.Predict(e, []float64{x, 0})
	vf.Assert(got == want, "the leaf's float32 value")
}

// HLeafVector : trees that carry a leaf vector, which is skipped.
func HLeafVector() {
	a := mk.XStump(0, true, 0.5, 1, 2)
	b := mk.XStump(1, false, 0.5, 4, 8)
	n := vf.Choose("length", 4)
	for i := 0; i < n; i++ {
		a.LeafVector = append(a.LeafVector, vf.U32("leaf vector"))
	}
	e := (&mk.XG{Features: 2, Trees: []*mk.XTree{a, b}}).MustLoad(false)
	x, y := vf.F64("x"), vf.F64("y")
	vf.Assume(x != 0.5 && y != 0.5)
	want := 2.0
	if goesLeft(x, 0.5, true) {
		want = 1
	}
	if goesLeft(y, 0.5, false) {
		want += 4
	} else {
		want += 8
	}
	vf.Assert(mk.Predict(e, []float64{x, y}) == want, "trees behind a leaf vector are read")
}

// HDeleted : a tree of 1..3 leaves and one to two deleted nodes with arbitrary contents that no node refers to, between the
// root and the other nodes or behind them. With one leaf the root itself was pruned to a leaf.
func HDeleted() {
	n := 1 + vf.Choose("leaves-1", 3)
	s := mk.ChooseShape(n)
	def := make([]bool, n)
	for i := range def {
		def[i] = i%2 == 0
	}
	t := tree(n, s, 0, def)
	extra := 1 + vf.Choose("deleted-1", 2)
	at := 1
	if n > 1 && vf.Choose("place", 2) == 1 {
		at = len(t.Nodes)
	}
	var nodes []mk.XNode
	for i, d := range t.Nodes {
		if i == at {
			nodes = append(nodes, junk(extra)...)
		}
		if d.Left >= int32(at) {
			d.Left += int32(extra)
		}
		if d.Right >= int32(at) {
			d.Right += int32(extra)
		}
		nodes = append(nodes, d)
	}
	if at == len(t.Nodes) {
		nodes = append(nodes, junk(extra)...)
	}
	t.Nodes = nodes
	t.NumDeleted = int32(extra)
	other := mk.XStump(0, true, 0.5, 1000, 2000)
	e := (&mk.XG{Features: 3, Trees: []*mk.XTree{t, other}}).MustLoad(false)
	row := []float64{vf.F64("x"), vf.F64("y"), 0}
	vf.Assume(row[0] != 0.5)
	want := 0
	if n > 1 {
		k := 0
		for k >= 0 {
			x := row[n-2-k]
			vf.Assume(x != float64(k)+0.5)
			if goesLeft(x, float32(k)+0.5, def[k]) {
				k = s.Left[k]
			} else {
				k = s.Right[k]
			}
			k = vf.Concrete(k)
		}
		want = -1 - k
	}
	base := 1000.0
	if !goesLeft(row[0], 0.5, true) {
		base = 2000
	}
	got := mk.Predict(e, row)
	vf.Observe(got)
	vf.Assert(got == base+100+float64(want), "deleted nodes have no influence")
	vf.Assert(e.NLeaves()[0] == n && e.NLeaves()[1] == 2, "deleted nodes are no leaves")
}

func junk(n int) []mk.XNode {
	d := make([]mk.XNode, n)
	for i := range d {
		d[i] = mk.XNode{Parent: vf.I32("parent"), Left: vf.I32("left"), Right: vf.I32("right"), SIndex: vf.U32("word"), Info: vf.F32("info")}
	}
	return d
}

// HLarge : a chain, left or right, or a balanced tree of 200 (thorough: 2000) leaves on feature 70000; the value ranges over a
// window of 10 leaves at the start, the middle or the end.
func HLarge() {
	n := 200
	if vf.Tier() > 0 {
		n = 2000
	}
	kind := vf.Choose("shape", 3)
	s := mk.Shape{Left: make([]int, n-1), Right: make([]int, n-1)}
	type todo struct{ lo, hi, at int }
	stack := []todo{{0, n, 0}}
	mids := make([]int, n-1)
	nodes := 1
	for len(stack) > 0 {
		d := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		mid := (d.lo + d.hi) / 2
		if kind == 1 {
			mid = d.lo + 1
		} else if kind == 2 {
			mid = d.hi - 1
		}
		mids[d.at] = mid
		s.Left[d.at], s.Right[d.at] = -1-d.lo, -1-mid
		if mid-d.lo > 1 {
			s.Left[d.at] = nodes
			stack = append(stack, todo{d.lo, mid, nodes})
			nodes++
		}
		if d.hi-mid > 1 {
			s.Right[d.at] = nodes
			stack = append(stack, todo{mid, d.hi, nodes})
			nodes++
		}
	}
	inner, leaf := mk.XFromShape(s, 0)
	num := func(c int) int {
		if c < 0 {
			return leaf[-1-c]
		}
		return inner[c]
	}
	t := &mk.XTree{Nodes: make([]mk.XNode, 2*n-1)}
	const f = 70000
	for i := 0; i < n-1; i++ {
		t.Nodes[inner[i]] = mk.XSplit(f, true, float32(mids[i]), num(s.Left[i]), num(s.Right[i]))
	}
	for i := 0; i < n; i++ {
		t.Nodes[leaf[i]] = mk.XLeaf(float32(1000 + i))
	}
	e := (&mk.XG{Features: f + 1, Trees: []*mk.XTree{t}}).MustLoad(false)
	vf.Assert(e.NFeatures() == f+1, "the number of features")
	base := []int{0, n/2 - 5, n - 10}[vf.Choose("window", 3)]
	x := vf.F64("x")
	vf.Assume(x > float64(base) && x < float64(base+10))
	w := base
	for k := 1; k < 10; k++ {
		vf.Assume(x != float64(base+k))
		if x > float64(base+k) {
			w = base + k
		}
	}
	row := make([]float64, f+1)
	row[f] = x
	vf.Assert(mk.Predict(e, row) == float64(1000+w), "the value of the leaf reached in a large tree")
}
