package p04

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// values whose float64 sum depends on the order of addition
var table = []float64{1e16, 1, -1e16, 3, 0.1, -7.25, 1e-3, 2.5e15, -2.5e15, 11, -0.2, 0.7, 5e15, 1.5, -1e15, 0.3, 9, -4e15}

func model(classes, iters int, avg bool, trees func(i, k int) *mk.Tree) *mk.LG {
	m := &mk.LG{NumClass: classes, MaxFeature: 1, Avg: avg}
	for i := 0; i < iters; i++ {
		for k := 0; k < classes; k++ {
			m.Trees = append(m.Trees, trees(i, k))
		}
	}
	return m
}

func used(n, iters int) int {
	if n <= 0 || n > iters {
		return iters
	}
	return n
}

// HSum : models of 1..3 classes and 1..3 iterations, sums or means, split trees and single-leaf trees, any number of
// iterations asked for in -1..iters+1, any previous contents of the output; a symbolic value selects the leaves; leaf values
// whose sum depends on the order.
func HSum() {
	classes := 1 + vf.Choose("classes-1", 3)
	iters := 1 + vf.Choose("iterations-1", 3)
	avg := vf.Choose("mean", 2) == 1
	single := vf.Choose("single-leaf trees at", 3)
	m := model(classes, iters, avg, func(i, k int) *mk.Tree {
		j := i*classes + k
		if j == single-1 {
			return &mk.Tree{Leaf: mk.Fs(table[j])}
		}
		return &mk.Tree{Left: mk.Is(-1), Right: mk.Is(-2), Feature: mk.Is(0), Thr: mk.Fs(0.5), Dec: mk.Is(2), Leaf: mk.Fs(table[j], table[j+9])}
	})
	e := m.MustLoad(false)
	vf.Assert(e.NRawOutputGroups() == classes && e.NEstimators() == iters, "classes and iterations of the model")
	x := vf.F64("x")
	vf.Assume(x == x)
	left := x <= 0.5
	n := vf.Choose("asked", iters+3) - 1
	out := make([]float64, classes)
	for i := range out {
		out[i] = vf.F64("previous content")
	}
	vf.Assert(e.Predict([]float64{x, 0}, n, out) == nil, "prediction succeeds")
	nu := used(n, iters)
	for k := 0; k < classes; k++ {
		want, mean, scale := 0.0, 0.0, 0.0
		for i := 0; i < nu; i++ {
			j := i*classes + k
			v := table[j+9]
			if left || j == single-1 {
				v = table[j]
			}
			want += v
			mean += v / float64(nu)
			if v < 0 {
				scale -= v
			} else {
				scale += v
			}
		}
		vf.Observe(out[k])
		if avg {
			vf.Assert(vf.Close(out[k], want/float64(nu), scale) || vf.Close(out[k], mean, scale), "mean of the class's trees over the iterations used")
		} else {
			vf.Assert(out[k] == want, "sum of the class's trees in iteration order")
		}
	}
	if left && avg {
		vf.Cover("mean, left")
	}
}

// HSymbolic : any finite leaf values, 1..2 classes, 1..3 iterations, no mean; float64 addition left uninterpreted (the terms
// and their order must agree).
func HSymbolic() {
	classes := 1 + vf.Choose("classes-1", 2)
	iters := 1 + vf.Choose("iterations-1", 3)
	vals := make([]float64, classes*iters)
	m := model(classes, iters, false, func(i, k int) *mk.Tree {
		vals[i*classes+k] = vf.F64("leaf value")
		return &mk.Tree{Leaf: []string{mk.FiniteTok(vals[i*classes+k])}}
	})
	e := m.MustLoad(false)
	out := make([]float64, classes)
	for i := range out {
		out[i] = vf.F64("previous content")
	}
	vf.Assert(e.Predict([]float64{1, 2}, 0, out) == nil, "prediction succeeds")
	for k := range out {
		want := 0.0
		for i := 0; i < iters; i++ {
			want += vals[i*classes+k]
		}
		vf.Assert(vf.Same(out[k], want), "sum of the class's leaf values")
	}
}

// HDense : a batch of 2 rows through the dense entry point, 1..2 classes, 2 iterations, means too; every row starts afresh.
func HDense() {
	classes := 1 + vf.Choose("classes-1", 2)
	avg := vf.Choose("mean", 2) == 1
	m := model(classes, 2, avg, func(i, k int) *mk.Tree {
		j := 2*(i*classes+k) + 1
		return &mk.Tree{Left: mk.Is(-1), Right: mk.Is(-2), Feature: mk.Is(1), Thr: mk.Fs(0.5), Dec: mk.Is(2), Leaf: mk.Is(j*16, (j+1)*16)}
	})
	e := m.MustLoad(false)
	vals := []float64{0, vf.F64("x"), 0, vf.F64("x")}
	vf.Assume(vals[1] == vals[1] && vals[3] == vals[3])
	out := make([]float64, classes*2)
	for i := range out {
		out[i] = vf.F64("previous content")
	}
	vf.Assert(e.PredictDense(vals, 2, 2, out, 0, 1) == nil, "prediction succeeds")
	for r := 0; r < 2; r++ {
		for k := 0; k < classes; k++ {
			want := 0.0
			for i := 0; i < 2; i++ {
				j := 2*(i*classes+k) + 1
				if !(vals[2*r+1] <= 0.5) {
					j++
				}
				want += float64(j * 16)
			}
			if avg {
				want /= 2
			}
			vf.Assert(out[r*classes+k] == want, "row result")
		}
	}
}

// HMany : 3 classes and 300 iterations, 1, 33, 257 or all used, sum or mean; a symbolic value selects a leaf in every tree.
func HMany() {
	vf.Steps(60000000)
	classes, iters := 3, 300
	avg := vf.Choose("mean", 2) == 1
	m := model(classes, iters, avg, func(i, k int) *mk.Tree {
		j := i*classes + k
		return &mk.Tree{Left: mk.Is(-1), Right: mk.Is(-2), Feature: mk.Is(j % 2), Thr: mk.Is(0), Dec: mk.Is(2), Leaf: mk.Is(j, j+1000)}
	})
	e := m.MustLoad(false)
	x := vf.F64("x")
	vf.Assume(x == x)
	n := []int{1, 33, 257, 0}[vf.Choose("asked", 4)]
	nu := used(n, iters)
	right := !(x <= 0)
	out := make([]float64, classes)
	vf.Assert(e.Predict([]float64{x, -1}, n, out) == nil, "prediction succeeds")
	for k := range out {
		want := 0
		for i := 0; i < nu; i++ {
			j := i*classes + k
			want += j
			if right && j%2 == 0 {
				want += 1000
			}
		}
		want = vf.Concrete(want)
		if avg {
			vf.Assert(vf.Close(out[k], float64(want)/float64(nu), float64(want+1)), "mean of many iterations")
		} else {
			vf.Assert(out[k] == float64(want), "sum of many iterations")
		}
	}
}
