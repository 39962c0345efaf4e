package p07

import (
	"math"

	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

var table = []float32{0.1, 3.25, -7.5, 1e7, -1e7, 0.3, 2, -0.7, 11, 0.05, 1e-3, 5, -2.5, 6e6, -6e6, 0.9, 17, -4}

// dart weights that are exactly representable products
var drops = []float32{1, 0.5, 0.25, 2, 1.5, 0.75, 4, 0.125, 3}

// HSum : gbtree and dart models of 1..3 classes and 1..3 iterations, split trees and single-leaf trees, any number of
// iterations asked for in -1..iters+1, any previous contents of the output, several base scores; a symbolic value (missing
// included) selects the leaves.
func HSum() {
	groups := 1 + vf.Choose("classes-1", 3)
	iters := 1 + vf.Choose("iterations-1", 3)
	dart := vf.Choose("dart", 2) == 1
	base := []float32{0, 0.5, -3.7}[vf.Choose("base score", 3)]
	single := vf.Choose("single-leaf tree at", 3)
	m := &mk.XG{Base: base, Features: 2, Groups: int32(groups)}
	if dart {
		m.Gbm = "dart"
	}
	for j := 0; j < groups*iters; j++ {
		t := mk.XStump(0, j%2 == 0, 0.5, table[j], table[j+9])
		if j == single-1 {
			t = &mk.XTree{Nodes: []mk.XNode{mk.XLeaf(table[j])}}
		}
		m.Trees = append(m.Trees, t)
		m.Drop = append(m.Drop, drops[j])
	}
	e := m.MustLoad(false)
	vf.Assert(e.NRawOutputGroups() == groups && e.NEstimators() == iters, "classes and iterations of the model")
	x := vf.F64("x")
	vf.Assume(x != 0.5)
	side := 2 // missing
	if x < 0.5 {
		side = 0
	} else if x > 0.5 {
		side = 1
	}
	side = vf.Concrete(side)
	n := vf.Choose("asked", iters+3) - 1
	nu := n
	if n <= 0 || n > iters {
		nu = iters
	}
	out := make([]float64, groups)
	for i := range out {
		out[i] = vf.F64("previous content")
	}
	vf.Assert(e.Predict([]float64{x, 0}, n, out) == nil, "prediction succeeds")
	for k := 0; k < groups; k++ {
		want, scale := float64(base), 10.0
		for i := 0; i < nu; i++ {
			j := i*groups + k
			v := float64(table[j+9])
			if j == single-1 || side == 0 || side == 2 && j%2 == 0 {
				v = float64(table[j])
			}
			if dart {
				v *= float64(drops[j])
			}
			want += v
			if v < 0 {
				scale -= v
			} else {
				scale += v
			}
		}
		vf.Observe(out[k])
		vf.Assert(vf.Close(out[k], want, scale), "base score plus the class's weighted leaf values")
	}
	if side == 2 && dart {
		vf.Cover("missing value, dart")
	}
}

// HSymbolic : any finite float32 base score, leaf values and dart weights, 1..2 classes, 1..2 iterations; float64 products and
// sums left uninterpreted, base score first, iterations in order.
func HSymbolic() {
	groups := 1 + vf.Choose("classes-1", 2)
	iters := 1 + vf.Choose("iterations-1", 2)
	dart := vf.Choose("dart", 2) == 1
	fin := func(label string) float32 {
		f := vf.F32(label)
		vf.Assume(f-f == 0)
		return f
	}
	m := &mk.XG{Base: fin("base score"), Features: 2, Groups: int32(groups)}
	if dart {
		m.Gbm = "dart"
	}
	for j := 0; j < groups*iters; j++ {
		m.Trees = append(m.Trees, &mk.XTree{Nodes: []mk.XNode{mk.XLeaf(fin("leaf value"))}})
		if dart {
			m.Drop = append(m.Drop, fin("weight"))
		}
	}
	e := m.MustLoad(false)
	out := make([]float64, groups)
	for i := range out {
		out[i] = vf.F64("previous content")
	}
	vf.Assert(e.Predict([]float64{1, 2}, 0, out) == nil, "prediction succeeds")
	for k := range out {
		want := float64(m.Base)
		scale := math.Abs(want)
		for i := 0; i < iters; i++ {
			v := float64(m.Trees[i*groups+k].Nodes[0].Info)
			if dart {
				v *= float64(m.Drop[i*groups+k])
			}
			want += v
			scale += math.Abs(v)
		}
		vf.Assert(vf.Close(out[k], want, scale), "base score plus the class's weighted leaf values")
	}
}

// HBatch : 3 rows through the dense and the sparse entry points, 2 classes, 2 iterations, gbtree and dart; every row starts
// from the base score.
func HBatch() {
	vf.Steps(60000000)
	m := &mk.XG{Base: 0.5, Features: 2, Groups: 2}
	dart := vf.Choose("dart", 2) == 1
	if dart {
		m.Gbm = "dart"
	}
	for j := 0; j < 4; j++ {
		m.Trees = append(m.Trees, mk.XStump(1, j%2 == 0, 0.5, float32(16*j+1), float32(16*j+9)))
		m.Drop = append(m.Drop, drops[j])
	}
	e := m.MustLoad(false)
	var vals []float64
	for i := 0; i < 3; i++ {
		x := vf.F64("x")
		vf.Assume(x != 0.5)
		vals = append(vals, 0, x)
	}
	out := make([]float64, 6)
	for i := range out {
		out[i] = vf.F64("previous content")
	}
	if vf.Choose("sparse", 2) == 1 {
		vf.Assert(e.PredictCSR([]int{0, 2, 4, 6}, []int{0, 1, 0, 1, 0, 1}, vals, out, 0, 1) == nil, "prediction succeeds")
	} else {
		vf.Assert(e.PredictDense(vals, 3, 2, out, 0, 1) == nil, "prediction succeeds")
	}
	for r := 0; r < 3; r++ {
		x := vals[2*r+1]
		for k := 0; k < 2; k++ {
			want := 0.5
			for i := 0; i < 2; i++ {
				j := 2*i + k
				v := float64(16*j + 1)
				if x > 0.5 || x != x && j%2 != 0 {
					v = float64(16*j + 9)
				}
				if dart {
					v *= float64(drops[j])
				}
				want += v
			}
			vf.Assert(out[r*2+k] == want, "row result")
		}
	}
}

// HMany : 2 classes and 300 iterations, 1, 33, 257 or all used, gbtree and dart with weights that are small powers of two.
func HMany() {
	vf.Steps(60000000)
	m := &mk.XG{Base: 0.5, Features: 2, Groups: 2}
	dart := vf.Choose("dart", 2) == 1
	if dart {
		m.Gbm = "dart"
	}
	for j := 0; j < 600; j++ {
		m.Trees = append(m.Trees, mk.XStump(j%2, true, 0.5, float32(j), float32(j+1000)))
		m.Drop = append(m.Drop, float32(1)/float32(int(1)<<uint(j%5)))
	}
	e := m.MustLoad(false)
	x := vf.F64("x")
	vf.Assume(x != 0.5)
	right := vf.Concrete(b2i(x > 0.5)) == 1
	n := []int{1, 33, 257, 0}[vf.Choose("asked", 4)]
	nu := n
	if n == 0 {
		nu = 300
	}
	out := make([]float64, 2)
	vf.Assert(e.Predict([]float64{x, 1}, n, out) == nil, "prediction succeeds")
	for k := range out {
		want := 0.5
		for i := 0; i < nu; i++ {
			j := 2*i + k
			v := float64(j)
			if right || k == 1 {
				v += 1000
			}
			if dart {
				v *= float64(m.Drop[j])
			}
			want += v
		}
		vf.Assert(out[k] == want, "base score plus many weighted leaf values")
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
