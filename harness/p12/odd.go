package p12

import (
	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HOdd : trees of 2 and 3 leaves with any references between nodes and leaves: if the model is loaded nevertheless, the indices
// are those of leaves that it reports to have.
func HOdd() {
	kind := vf.Choose("kind", 3)
	n := 2 + vf.Choose("leaves-2", 2)
	var e *leaves.Ensemble
	var err error
	switch kind {
	case 0:
		t := lgChain(0, n, 0)
		for i := range t.Left {
			t.Left[i], t.Right[i] = vf.IntTok(int64(vf.I32("left"))), vf.IntTok(int64(vf.I32("right")))
		}
		e, err = (&mk.LG{MaxFeature: 0, Trees: []*mk.Tree{t}}).Load(false)
	case 1:
		t := xgChain(0, n, 0)
		k := 2 * vf.Choose("node", n-1)
		t.Nodes[k].Left, t.Nodes[k].Right = vf.I32("left"), vf.I32("right")
		e, err = (&mk.XG{Features: 1, Trees: []*mk.XTree{t}}).Load(false)
	default:
		t := skChain(0, n, 0)
		k := vf.Choose("node", len(t.Nodes))
		for _, c := range []*int{&t.Nodes[k].Left, &t.Nodes[k].Right} {
			b := vf.Byte("child")
			vf.Assume(b != '\n' && b != '\\')
			*c = int(int8(b))
		}
		e, err = mk.LoadSK((&mk.SK{Classes: 2, Features: 1, Rate: "1.0", Prior: []float64{0}, Trees: []*mk.SKTree{t}}).Bytes())
	}
	if err != nil {
		return
	}
	v := e.EnsembleWithLeafPredictions()
	c := v.NLeaves()
	vf.Assert(len(c) == 1 && c[0] >= 1, "one leaf count per tree")
	out := []float64{-1}
	x := vf.F64("x")
	vf.Assert(v.Predict([]float64{x}, 0, out) == nil, "leaf prediction accepts a row of the model's width")
	vf.Assert(out[0] >= 0 && out[0] < float64(c[0]) && out[0] == float64(int(out[0])), "an index is an integer below the number of leaves")
	vf.Cover("loaded")
}
