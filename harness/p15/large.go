package p15

import (
	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HMany : models of 300 iterations and one or two classes, the i-th of which adds 1000^class * i; any int asked for is tried
// around 1, 128, 256 and 300; every entry point.
func HMany() {
	const iters = 300
	vf.Steps(200000000)
	g := 1 + vf.Choose("groups-1", 2)
	var e *leaves.Ensemble
	if vf.Choose("kind", 2) == 0 {
		m := &mk.LG{NumClass: g, MaxFeature: 2}
		for j := 0; j < iters*g; j++ {
			m.Trees = append(m.Trees, &mk.Tree{Leaf: mk.Is(j/g + 1)})
		}
		e = m.MustLoad(false)
	} else {
		m := &mk.XG{Features: 3, Groups: int32(g)}
		if g == 1 {
			m.Gbm = "dart"
		}
		for j := 0; j < iters*g; j++ {
			m.Trees = append(m.Trees, &mk.XTree{Nodes: []mk.XNode{mk.XLeaf(float32(j/g + 1))}})
			m.Drop = append(m.Drop, 1)
		}
		e = m.MustLoad(false)
	}
	asked := int(vf.I64("asked"))
	lo := []int{-1 << 62, 126, 254, 298, 65534, 1<<32 - 2}[vf.Choose("window", 6)]
	if lo < 0 {
		vf.Assume(asked < 3)
	} else {
		vf.Assume(asked >= lo && asked < lo+5)
	}
	used := iters
	if asked > 0 && asked < iters {
		used = vf.Concrete(asked)
	}
	row := []float64{1, 2, 3}
	for entry := 0; entry < 6; entry++ {
		if entry == 5 && g > 1 {
			continue
		}
		out, err := call(e, entry, row, asked, g)
		vf.Assert(err == nil, "prediction succeeds")
		for k := range out {
			vf.Assert(out[k] == float64(used*(used+1)/2), "exactly the first iterations of many")
		}
	}
}
