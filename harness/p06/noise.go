package p06

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HIgnored : all words of header, booster, trees and nodes that do not bear on predictions (reserved ones, statistics, depth,
// parents, classes of the header, split words of leaves) are arbitrary.
func HIgnored() {
	n := 2 + vf.Choose("leaves-2", 2)
	s := mk.ChooseShape(n)
	def := []bool{true, false, true}
	t := tree(n, s, 0, def)
	for i := range t.Nodes {
		t.Nodes[i].Parent = vf.I32("parent")
		if t.Nodes[i].Left == -1 {
			t.Nodes[i].SIndex = vf.U32("split word of a leaf")
		}
	}
	m := &mk.XG{Features: 3, NumClass: vf.I32("classes of the header"), Trees: []*mk.XTree{t, mk.XStump(0, true, 0.5, 1000, 2000)}}
	m.Noise = func() uint32 { return vf.U32("ignored") }
	e := m.MustLoad(false)
	row := []float64{vf.F64("x"), vf.F64("y"), 0}
	vf.Assume(row[0] != 0.5)
	k := 0
	for k >= 0 {
		x := row[n-2-k]
		vf.Assume(x != float64(k)+0.5)
		if goesLeft(x, float32(k)+0.5, def[k]) {
			k = s.Left[k]
		} else {
			k = s.Right[k]
		}
		k = vf.Concrete(k)
	}
	base := 1000.0
	if !goesLeft(row[0], 0.5, true) {
		base = 2000
	}
	vf.Assert(mk.Predict(e, row) == base+100+float64(-1-k), "words without meaning do not bear on the prediction")
	vf.Assert(e.NFeatures() == 3 && e.NRawOutputGroups() == 1 && e.NEstimators() == 2, "the dimensions of the model")
}
