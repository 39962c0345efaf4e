package p09

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HOneSplit : one split on any of 3 features; any finite float64 threshold, every float64 value but NaN; the bytes of the
// threshold contain neither a line feed nor a backslash (their escapes are decided by P22).
func HOneSplit() {
	thr := vf.F64("threshold")
	vf.Assume(mk.Finite(thr))
	for _, b := range mk.F64s(false, thr) {
		vf.Assume(b != '\n' && b != '\\')
	}
	f := vf.Choose("feature", 3)
	m := &mk.SK{Classes: 2, Features: 3, Prior: []float64{0.25}, Trees: []*mk.SKTree{mk.SKStump(f, thr, 10, 20)}}
	e := m.MustLoad()
	row := []float64{0.5, 0.5, 0.5}
	x := vf.F64("x")
	vf.Assume(x == x)
	row[f] = x
	got := mk.Predict(e, row)
	vf.Observe(got)
	want := 10.25
	if x <= thr {
		want = 5.25
	}
	vf.Assert(got == want, "a row goes left exactly when its value is at most the threshold")
	if x == thr {
		vf.Cover("on the threshold")
	}
}

// HShapes : one tree of 1..5 (thorough: 1..6) leaves of every shape, numbered depth first, a feature and a threshold of its
// own at every node, symbolic values.
func HShapes() {
	n := 1 + vf.Choose("leaves-1", 5+vf.Tier())
	s := mk.ChooseShape(n)
	for i := range s.Left { // one numbering of the inner nodes is enough: the file numbers them depth first
		if c := s.Left[i]; c >= 0 {
			vf.Assume(c > i)
		}
		if c := s.Right[i]; c >= 0 {
			vf.Assume(c > i)
		}
	}
	t := mk.SKFromShape(s, func(i int) int { return n - 2 - i }, func(i int) float64 { return float64(i) + 0.5 }, func(p int) float64 { return float64(100 + p) })
	e := (&mk.SK{Classes: 2, Features: n + 1, Rate: "2", Prior: []float64{0.5}, Trees: []*mk.SKTree{t}}).MustLoad()
	row := make([]float64, n+1)
	for i := range row {
		row[i] = vf.F64("x")
		vf.Assume(row[i] == row[i])
	}
	want := 0
	if n > 1 {
		at := 0
		for at >= 0 {
			if row[n-2-at] <= float64(at)+0.5 {
				at = s.Left[at]
			} else {
				at = s.Right[at]
			}
			at = vf.Concrete(at)
		}
		want = -1 - at
	}
	got := mk.Predict(e, row)
	vf.Observe(got)
	vf.Assert(got == 0.5+2*float64(100+want), "prior plus learning rate times the value of the leaf reached")
	if n == 5 {
		vf.Cover("five leaves")
	}
	if n == 1 {
		vf.Cover("single leaf")
	}
}

var table = []float64{0.1, 3.25, -7.5, 100, -0.3, 2, 11, 0.05, 17, -4, 0.7, 9}

// HSum : 2..4 classes, 1..3 iterations, several rates, either byte order of the doubles, with and without memo, a single-leaf tree at any of
// 3 places, any number of iterations asked for, any previous contents of the output.
func HSum() {
	classes := 2 + vf.Choose("classes-2", 3)
	iters := 1 + vf.Choose("iterations-1", 3)
	single := vf.Choose("single-leaf tree at", 4)
	ri, form := (iters+classes)%3, (classes+iters+single)%3
	if vf.Tier() == 1 {
		form = vf.Choose("form", 3)
	}
	m := &mk.SK{Classes: classes, Features: 2, Rate: []string{"0.1", "1.0", "0.03"}[ri]}
	r := []float64{0.1, 1, 0.03}[ri]
	m.Big, m.Memo = form == 1, form == 2
	g := m.Groups()
	m.Prior = []float64{-1.25, 0.75, 0.1, 3}[:g]
	for j := 0; j < g*iters; j++ {
		t := mk.SKStump(0, 0.5, table[j], table[11-j])
		if j == single-1 {
			t = &mk.SKTree{Nodes: []mk.SKNode{mk.SKLeaf()}, Values: []float64{table[j]}}
		}
		m.Trees = append(m.Trees, t)
	}
	e := m.MustLoad()
	vf.Assert(e.NRawOutputGroups() == g && e.NOutputGroups() == g && e.NEstimators() == iters, "classes and iterations of the model")
	x := vf.F64("x")
	vf.Assume(x == x)
	left := vf.Concrete(b2i(x <= 0.5)) == 1
	n := vf.Choose("asked", iters+3) - 1
	nu := n
	if n <= 0 || n > iters {
		nu = iters
	}
	out := make([]float64, g)
	for i := range out {
		out[i] = vf.F64("previous content")
	}
	vf.Assert(e.Predict([]float64{x, 0}, n, out) == nil, "prediction succeeds")
	for k := 0; k < g; k++ {
		want := m.Prior[k]
		for i := 0; i < nu; i++ {
			j := i*g + k
			v := table[11-j]
			if left || j == single-1 {
				v = table[j]
			}
			want += r * v
		}
		vf.Observe(out[k])
		vf.Assert(vf.Close(out[k], want, 500), "prior plus learning rate times leaf values, by class")
	}
	if form == 1 && g == 3 {
		vf.Cover("big endian, 3 classes")
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// HFortran : the array of trees in column-major order, 2 or 3 classes, 1..3 iterations: refused or read as what it is.
func HFortran() {
	classes, iters := 2+vf.Choose("classes-2", 2), 1+vf.Choose("iterations-1", 3)
	m := &mk.SK{Classes: classes, Features: 2, Rate: "1.0", Fortran: true}
	g := m.Groups()
	m.Prior = []float64{-1.25, 0.75, 0.5}[:g]
	for j := 0; j < g*iters; j++ {
		m.Trees = append(m.Trees, mk.SKStump(0, 0.5, float64(j), float64(10*j)))
	}
	e, err := mk.LoadSK(m.Bytes())
	if err != nil {
		vf.Cover("refused")
		return
	}
	x := vf.F64("x")
	vf.Assume(x == x)
	out := make([]float64, g)
	vf.Assert(e.Predict([]float64{x, 0}, 0, out) == nil, "prediction succeeds")
	for k := range out {
		want := m.Prior[k]
		for i := 0; i < iters; i++ {
			v := 10 * (i*g + k)
			if x <= 0.5 {
				v = i*g + k
			}
			want += float64(v)
		}
		vf.Assert(out[k] == want, "trees in column-major order are not taken for those of other classes")
	}
}

// HSymbolic : any finite prior, rate and leaf value of a single-leaf or split model; products and sums uninterpreted; bytes
// without line feeds and backslashes.
func HSymbolic() {
	fin := func(label string) float64 {
		v := vf.F64(label)
		vf.Assume(v > -1e100 && v < 1e100)
		for _, b := range mk.F64s(false, v) {
			vf.Assume(b != '\n' && b != '\\')
		}
		return v
	}
	prior, val := fin("prior"), fin("leaf value")
	rate := vf.F64("rate")
	vf.Assume(rate > 0 && rate < 1e100)
	m := &mk.SK{Classes: 2, Features: 2, Rate: mk.FiniteTok(rate), Prior: []float64{prior}}
	if vf.Choose("split", 2) == 1 {
		m.Trees = []*mk.SKTree{mk.SKStump(0, 0.5, val, 3)}
	} else {
		m.Trees = []*mk.SKTree{{Nodes: []mk.SKNode{mk.SKLeaf()}, Values: []float64{val}}}
	}
	e := m.MustLoad()
	got := mk.Predict(e, []float64{0, 0})
	p, q := prior, rate*val
	if p < 0 {
		p = -p
	}
	if q < 0 {
		q = -q
	}
	vf.Assert(vf.Close(got, 0+(val*rate+prior), p+q), "prior plus rate times value")
}
