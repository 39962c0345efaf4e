package p09

import (
	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HLarge : a chain of 300 leaves on feature 128, 256 or 299; values around the first, the 256th and the last threshold.
func HLarge() {
	const n = 300
	vf.Steps(60000000)
	w := vf.Choose("window", 3)
	f := []int{128, 299, 256}[w]
	s := mk.Chain(n)
	t := mk.SKFromShape(s, func(i int) int { return f }, func(i int) float64 { return float64(i) }, func(p int) float64 { return float64(p * p) })
	e := (&mk.SK{Classes: 2, Features: 300, Rate: "0.5", Prior: []float64{1}, Trees: []*mk.SKTree{t}}).MustLoad()
	b := []int{-2, 253, n - 4}[w]
	x := vf.F64("x")
	vf.Assume(x > float64(b-1) && x <= float64(b+3))
	row := make([]float64, 300)
	for i := range row {
		row[i] = -7
	}
	row[f] = x
	p := b
	if p < 0 {
		p = 0
	}
	for k := b + 1; k < b+4; k++ { // thresholds are their places in the chain
		if k > 0 && k < n && x > float64(k-1) {
			p = k
		}
	}
	p = vf.Concrete(p)
	got := mk.Predict(e, row)
	vf.Observe(got)
	vf.Assert(got == 1+0.5*float64(p*p), "prior plus rate times the value of a leaf of a large tree")
}

// HMany : 2 classes with 280 iterations or 20 classes with 14, one, some or all of them used.
func HMany() {
	vf.Steps(120000000)
	m := &mk.SK{Classes: 2, Features: 2, Rate: "0.25", Prior: []float64{3}}
	iters := 280
	if vf.Choose("classes", 2) == 1 {
		m.Classes, iters = 20, 14
		m.Prior = nil
		for i := 0; i < 20; i++ {
			m.Prior = append(m.Prior, float64(2*i))
		}
	}
	g := m.Groups()
	for j := 0; j < iters*g; j++ {
		m.Trees = append(m.Trees, mk.SKStump(j%2, 0, float64(j), float64(j+1000)))
	}
	e := m.MustLoad()
	x := vf.F64("x")
	vf.Assume(x == x)
	right := x > 0
	for _, n := range []int{1, 11, 257, 0} {
		many(e, m, iters, n, x, right)
	}
}

func many(e *leaves.Ensemble, m *mk.SK, iters, n int, x float64, right bool) {
	g := m.Groups()
	out := make([]float64, g)
	vf.Assert(e.Predict([]float64{x, -1}, n, out) == nil, "prediction succeeds")
	nu := iters
	if n > 0 && n < iters {
		nu = n
	}
	for k := range out {
		want := m.Prior[k]
		for i := 0; i < nu; i++ {
			j := i*g + k
			v := float64(j)
			if right && j%2 == 0 {
				v += 1000
			}
			want += 0.25 * v
		}
		vf.Assert(out[k] == want, "prior plus many trees")
	}
}
