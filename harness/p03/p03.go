package p03

import (
	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

func leafIndex(e *leaves.Ensemble, row []float64) float64 {
	out := []float64{-7}
	err := e.EnsembleWithLeafPredictions().Predict(row, 0, out)
	vf.Assert(err == nil, "leaf prediction accepts the row")
	return out[0]
}

// HShapes : one tree of 1..5 (thorough: 1..6) leaves, every shape, every numbering of the inner nodes with the root at 0,
// every numbering of the leaves (symbolic), a feature and a threshold of its own at every node, symbolic values.
func HShapes() {
	n := 1 + vf.Choose("leaves-1", 5+vf.Tier())
	s := mk.ChooseShape(n)
	leaf := mk.SymPerm("leaf number", n)
	t := &mk.Tree{}
	var row []float64
	for i := 0; i < n; i++ {
		t.Leaf = append(t.Leaf, mk.I(100+i))
		row = append(row, vf.F64("x"))
		vf.Assume(row[i] == row[i])
	}
	for i := 0; i < n-1; i++ {
		t.Feature = append(t.Feature, mk.I(n-2-i))
		t.Thr = append(t.Thr, mk.F(float64(i)+0.5))
		t.Dec = append(t.Dec, "0")
		t.Left = append(t.Left, mk.Child(s.Left[i], leaf))
		t.Right = append(t.Right, mk.Child(s.Right[i], leaf))
	}
	e := (&mk.LG{MaxFeature: n - 1, Trees: []*mk.Tree{t}}).MustLoad(false)
	want := 0
	if n > 1 {
		at := 0
		for at >= 0 {
			if row[n-2-at] <= float64(at)+0.5 {
				at = s.Left[at]
			} else {
				at = s.Right[at]
			}
		}
		want = vf.Concrete(leaf[-1-at])
	}
	got := mk.Predict(e, row)
	idx := leafIndex(e, row)
	vf.Observe(got)
	vf.Observe(idx)
	vf.Assert(got == 100+float64(want), "the declared value of the leaf reached")
	vf.Assert(idx == float64(want), "the declared index of the leaf reached")
	vf.Assert(len(e.NLeaves()) == 1 && e.NLeaves()[0] == n, "the number of leaves")
	if n == 1 {
		vf.Cover("single leaf")
	}
	if n == 5 {
		vf.Cover("five leaves")
	}
}

// HTwoTrees : two trees of 1..3 leaves each in one model, all shapes; the trees do not mix.
func HTwoTrees() {
	var want float64
	var widx []int
	var ts []*mk.Tree
	row := []float64{vf.F64("x0"), vf.F64("x1")}
	for _, x := range row {
		vf.Assume(x == x)
	}
	for k := 0; k < 2; k++ {
		n := 1 + vf.Choose("leaves-1", 3)
		s := mk.ChooseShape(n)
		leaf := mk.SymPerm("leaf number", n)
		t := &mk.Tree{}
		for i := 0; i < n; i++ {
			t.Leaf = append(t.Leaf, mk.I(1+i+16*k*(i+1)))
		}
		var thr []float64
		for i := 0; i < n-1; i++ {
			h := float64(i-k) + 0.5
			thr = append(thr, h)
			t.Feature = append(t.Feature, mk.I((i+k)%2))
			t.Thr = append(t.Thr, mk.F(h))
			t.Dec = append(t.Dec, "2")
			t.Left = append(t.Left, mk.Child(s.Left[i], leaf))
			t.Right = append(t.Right, mk.Child(s.Right[i], leaf))
		}
		at := 0
		w := 0
		if n > 1 {
			for at >= 0 {
				if row[(at+k)%2] <= thr[at] {
					at = s.Left[at]
				} else {
					at = s.Right[at]
				}
			}
			w = vf.Concrete(leaf[-1-at])
		}
		widx = append(widx, w)
		want += float64(1 + w + 16*k*(w+1))
		ts = append(ts, t)
	}
	e := (&mk.LG{MaxFeature: 1, Trees: ts}).MustLoad(false)
	got := mk.Predict(e, row)
	vf.Observe(got)
	vf.Assert(got == want, "both trees contribute their declared leaf")
	out := []float64{-1, -1}
	vf.Assert(e.EnsembleWithLeafPredictions().Predict(row, 0, out) == nil, "leaf prediction accepts the row")
	vf.Assert(out[0] == float64(widx[0]) && out[1] == float64(widx[1]), "both declared indices")
}

// HLarge : a tree of 300 leaves (thorough: 1200) in a chain or balanced, with reversed leaf numbers; the value ranges over the
// thresholds of a window of 12 leaves at the start, the middle or the end.
func HLarge() {
	n := 300
	if vf.Tier() > 0 {
		n = 1200
	}
	kind := vf.Choose("shape", 3)
	t := &mk.Tree{}
	ref := func(i int) string { return mk.I(^(n - 1 - i)) } // i-th leaf from the left
	var nodes int
	type todo struct{ lo, hi, at int }
	stack := []todo{{0, n, 0}}
	nodes = 1
	t.Left, t.Right, t.Thr = make([]string, n-1), make([]string, n-1), make([]string, n-1)
	for len(stack) > 0 {
		d := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		mid := (d.lo + d.hi) / 2
		if kind == 1 {
			mid = d.lo + 1
		} else if kind == 2 {
			mid = d.hi - 1
		}
		t.Thr[d.at] = mk.I(mid)
		if mid-d.lo == 1 {
			t.Left[d.at] = ref(d.lo)
		} else {
			t.Left[d.at] = mk.I(nodes)
			stack = append(stack, todo{d.lo, mid, nodes})
			nodes++
		}
		if d.hi-mid == 1 {
			t.Right[d.at] = ref(mid)
		} else {
			t.Right[d.at] = mk.I(nodes)
			stack = append(stack, todo{mid, d.hi, nodes})
			nodes++
		}
	}
	for i := 0; i < n; i++ {
		t.Leaf = append(t.Leaf, mk.I(1000+i))
		if i < n-1 {
			t.Feature = append(t.Feature, "0")
			t.Dec = append(t.Dec, "0")
		}
	}
	e := (&mk.LG{MaxFeature: 1, Trees: []*mk.Tree{t}}).MustLoad(false)
	base := []int{0, n/2 - 6, n - 12}[vf.Choose("window", 3)]
	x := vf.F64("x")
	vf.Assume(x > float64(base) && x <= float64(base+12))
	w := base
	for k := 1; k < 12; k++ {
		if x > float64(base+k) {
			w = base + k
		}
	}
	row := []float64{x, 0}
	got := mk.Predict(e, row)
	vf.Assert(got == float64(1000+n-1-w), "the declared value of the leaf reached in a large tree")
	vf.Assert(leafIndex(e, row) == float64(n-1-w), "the declared index of the leaf reached in a large tree")
	vf.Assert(e.NLeaves()[0] == n, "the number of leaves of a large tree")
}
