package p16

import (
	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

const width = 3

// run calls f on output slices of length l with two different contents: it has to fail exactly if short, to write exactly the
// first n elements when it succeeds, and none when it fails. An element counts as written when it does not depend on what was there.
func run(l, n int, short bool, f func(out []float64) error) []float64 {
	a, b := make([]float64, l), make([]float64, l)
	for i := range a {
		a[i], b[i] = 77, 78
	}
	ea, eb := f(a), f(b)
	vf.Assert((ea != nil) == short && (eb != nil) == short, "an error exactly for a short output slice or row")
	for i := range a {
		vf.Observe(a[i])
		if !short && i < n {
			vf.Assert(vf.SameBits(a[i], b[i]), "every output is written")
		} else {
			vf.Assert(a[i] == 77 && b[i] == 78, "nothing else is written")
		}
	}
	return a
}

func inputs(n int) ([]float64, []float64) {
	a := make([]float64, n)
	for i := range a {
		a[i] = vf.F64("x")
	}
	return a, append([]float64{}, a...)
}

func unchanged(a, b []float64) {
	vf.Assert(len(a) == len(b), "the inputs keep their length")
	for i := range a {
		vf.Assert(vf.SameBits(a[i], b[i]), "the inputs are not changed")
	}
}

// HSingle : every kind of model and view; output slices of 0..groups+2 elements and rows of 0..5 features, any values.
func HSingle() {
	_, e, _, n := mk.ChooseZoo()
	row, copied := inputs(vf.Choose("features", width+3))
	l := vf.Choose("outputs", n+3)
	short := l < n || len(row) < width
	out := run(l, n, short, func(out []float64) error { return e.Predict(row, 0, out) })
	unchanged(row, copied)
	s := e.PredictSingle(row, 0)
	vf.Observe(s)
	if n != 1 || len(row) < width {
		vf.Assert(s == 0, "PredictSingle returns 0 for short rows and several outputs")
	} else if !short {
		vf.Assert(vf.SameBits(s, out[0]), "PredictSingle agrees with Predict")
	}
	unchanged(row, copied)
	if short && len(row) == width {
		vf.Cover("short output only")
	}
}

func size(label string, need int) int {
	s := []int{0, need - 1, need, need + 2, need / 2}[vf.Choose(label, 5)]
	vf.Assume(s >= 0)
	return s
}

// HDense : every kind and view; 0, 1, 2 and 17 rows of 0..4 columns; output slices empty, half, one short, exact and too long.
func HDense() {
	_, e, _, n := mk.ChooseZoo()
	vf.SetProcs(2)
	vf.Preempt(-1)
	rows := []int{0, 1, 2, 17}[vf.Choose("rows", 4)]
	cols := vf.Choose("columns", width+2)
	l := size("outputs", rows*n)
	m := make([]float64, rows*cols)
	for i := range m {
		m[i] = float64(i%7) - 3
	}
	copied := append([]float64{}, m...)
	short := l < rows*n || cols < width
	run(l, rows*n, short, func(out []float64) error { return e.PredictDense(m, rows, cols, out, 0, 2) })
	unchanged(m, copied)
	if rows == 17 && !short {
		vf.Cover("parallel")
	}
}

// HSparse : every kind and view; 0, 1, 2 and 17 rows; output slices empty, half, one short, exact and too long.
func HSparse() {
	_, e, _, n := mk.ChooseZoo()
	vf.SetProcs(2)
	vf.Preempt(-1)
	rows := []int{0, 1, 2, 17}[vf.Choose("rows", 4)]
	l := size("outputs", rows*n)
	indptr := []int{0}
	var cols []int
	var m []float64
	for r := 0; r < rows; r++ {
		for c := 0; c < 5; c++ {
			if (r+c)%2 == 0 {
				cols = append(cols, c)
				m = append(m, float64((r*5+c)%7)-3)
			}
		}
		indptr = append(indptr, len(cols))
	}
	mc, cc, ic := append([]float64{}, m...), append([]int{}, cols...), append([]int{}, indptr...)
	short := l < rows*n
	run(l, rows*n, short, func(out []float64) error { return e.PredictCSR(indptr, cols, m, out, 0, 2) })
	unchanged(m, mc)
	for i := range cc {
		vf.Assert(cols[i] == cc[i], "the inputs are not changed")
	}
	for i := range ic {
		vf.Assert(indptr[i] == ic[i], "the inputs are not changed")
	}
	if rows == 17 && !short {
		vf.Cover("parallel")
	}
}

// HNarrow : models of one to three features of each format: a row of exactly that many features is enough, one less is not.
func HNarrow() {
	f := 1 + vf.Choose("features-1", 3)
	var e *leaves.Ensemble
	switch vf.Choose("format", 5) {
	case 0:
		e = (&mk.LG{MaxFeature: f - 1, Trees: []*mk.Tree{{Left: mk.Is(^0), Right: mk.Is(^1), Feature: mk.Is(f - 1), Dec: mk.Is(0), Thr: mk.Fs(0.5), Leaf: mk.Fs(1, 2)}}}).MustLoad(false)
	case 1:
		e = (&mk.LG{Version: "v2", MaxFeature: f - 1, Trees: []*mk.Tree{{Left: mk.Is(^0), Right: mk.Is(^1), Feature: mk.Is(f - 1), Dec: mk.Is(0), Thr: mk.Fs(0.5), Leaf: mk.Fs(1, 2)}}}).MustLoadJSON()
	case 2:
		e = (&mk.XG{Features: uint32(f), Trees: []*mk.XTree{mk.XStump(f-1, false, 0.5, 1, 2)}}).MustLoad(false)
	case 3:
		e = (&mk.XG{Features: uint32(f), NumFeature: int32(f), Gbm: "gblinear", Weights: []float32{1, 2, 3, 4}[:f+1]}).MustLoad(false)
	case 4:
		e = (&mk.SK{Classes: 2, Features: f, Prior: []float64{0}, Trees: []*mk.SKTree{mk.SKStump(f-1, 0.5, 1, 2)}}).MustLoad()
	}
	x := vf.F64("x")
	row := make([]float64, f)
	row[f-1] = x
	run(2, 1, false, func(out []float64) error { return e.Predict(row, 0, out) })
	run(2, 1, true, func(out []float64) error { return e.Predict(row[:f-1], 0, out) })
	vf.Assert(e.PredictSingle(row[:f-1], 0) == 0, "PredictSingle returns 0")
	run(2, 1, true, func(out []float64) error { return e.PredictDense(row[:f-1], 1, f-1, out, 0, 1) })
	run(2, 1, false, func(out []float64) error { return e.PredictDense(row, 1, f, out, 0, 1) })
	run(2, 1, false, func(out []float64) error {
		return e.PredictCSR([]int{0, 1}, []int{f - 1}, []float64{x}, out, 0, 1)
	})
}
