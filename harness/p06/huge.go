package p06

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HHuge : a balanced tree of 33000 (thorough: 70000) leaves; values between two neighbouring thresholds at nine places.
func HHuge() {
	vf.Steps(2000000000)
	n := 33000
	if vf.Tier() > 0 {
		n = 70000
	}
	s, mids := mk.Balanced(n)
	t := &mk.XTree{Nodes: make([]mk.XNode, 2*n-1)}
	num := func(c int) int { // leaves last
		if c < 0 {
			return n - 2 - c
		}
		return c
	}
	for i := 0; i < n-1; i++ {
		t.Nodes[i] = mk.XSplit(0, true, float32(mids[i]), num(s.Left[i]), num(s.Right[i]))
	}
	for i := 0; i < n; i++ {
		t.Nodes[n-1+i] = mk.XLeaf(float32(100000 + i))
	}
	e := (&mk.XG{Features: 1, Trees: []*mk.XTree{t}}).MustLoad(false)
	vf.Assert(e.NLeaves()[0] == n, "the number of leaves of a huge tree")
	v := e.EnsembleWithLeafPredictions()
	seen := map[int]bool{}
	for _, w := range mk.Windows(n) {
		if w >= n {
			continue
		}
		x := vf.F64("x")
		vf.Assume(x > float64(w) && x < float64(w+1))
		out := []float64{-1}
		vf.Assert(e.Predict([]float64{x}, 0, out) == nil && out[0] == float64(100000+w), "the leaf reached in a huge tree")
		vf.Assert(v.Predict([]float64{x}, 0, out) == nil && out[0] >= 0 && out[0] < float64(n) && !seen[int(out[0])], "different leaves of a huge tree have different indices")
		seen[int(out[0])] = true
	}
}
