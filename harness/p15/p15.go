package p15

import (
	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

const width = 3

// call runs one entry point on one row and returns the outputs.
func call(e *leaves.Ensemble, entry int, row []float64, asked, n int) ([]float64, error) {
	out := make([]float64, n)
	for i := range out {
		out[i] = 77
	}
	switch entry {
	case 0:
		return out, e.Predict(row, asked, out)
	case 1:
		return out, e.PredictDense(row, 1, width, out, asked, 1)
	case 2:
		return out, e.PredictCSR([]int{0, 3}, []int{0, 1, 2}, row, out, asked, 0)
	case 3: // several rows and workers, the row last
		vf.SetProcs(2)
		vf.Preempt(-1)
		m := make([]float64, 17*width)
		copy(m[16*width:], row)
		all := make([]float64, 17*n)
		err := e.PredictDense(m, 17, width, all, asked, 2)
		return all[16*n:], err
	case 4:
		vf.SetProcs(2)
		vf.Preempt(-1)
		ip := make([]int, 18)
		ip[17] = 3
		all := make([]float64, 17*n)
		err := e.PredictCSR(ip, []int{0, 1, 2}, row, all, asked, 2)
		return all[16*n:], err
	}
	out[0] = e.PredictSingle(row, asked)
	return out, nil
}

// HPrefix : every kind of model (1..4 iterations), as loaded and raw; every entry point; any int asked for; any values in the row: the
// outputs are those of a model with only the first min(n, available) iterations.
func HPrefix() {
	k := vf.Choose("model", len(mk.Zoos))
	z := mk.Zoos[k]
	iters := 1
	if !z.Linear {
		iters = 1 + vf.Choose("iterations-1", 3+vf.Tier())
	}
	view := vf.Choose("view", 2)
	vf.Assume(view == 0 || z.Trans)
	e, n := z.View(z.LoadN(iters), view, iters)
	entry := vf.Choose("entry", 6)
	vf.Assume(entry < 5 || n == 1)
	asked := int(vf.I64("asked"))
	row := []float64{vf.F64("x"), vf.F64("x"), vf.F64("x")}
	use := iters
	if asked > 0 && asked <= iters {
		asked = vf.Concrete(asked)
		use = asked
	}
	got, err := call(e, entry, row, asked, n)
	vf.Assert(err == nil, "prediction succeeds")
	p, _ := z.View(z.LoadN(use), view, use)
	want := make([]float64, n)
	vf.Assert(p.Predict(row, 0, want) == nil, "prediction of the prefix succeeds")
	for i := range want {
		vf.Observe(got[i])
		vf.Assert(vf.Same(got[i], want[i]), "the first min(n, available) iterations, all for n <= 0")
	}
	if use == 2 && iters == 3 && entry == 4 {
		vf.Cover("two of three, sparse, parallel")
	}
	if asked < 0 && iters > 1 {
		vf.Cover("negative")
	}
}

// HLeafView : the leaf-index view, asked for all iterations or more, or zero or less of them, returns all of them.
func HLeafView() {
	z := mk.Zoos[vf.Choose("model", len(mk.Zoos))]
	vf.Assume(!z.Linear)
	iters := 1 + vf.Choose("iterations-1", 2)
	e, n := z.View(z.LoadN(iters), 2, iters)
	entry := vf.Choose("entry", 5)
	asked := int(vf.I64("asked"))
	vf.Assume(asked <= 0 || asked >= iters)
	row := []float64{vf.F64("x"), vf.F64("x"), vf.F64("x")}
	got, err := call(e, entry, row, asked, n)
	vf.Assert(err == nil, "prediction succeeds")
	want := make([]float64, n)
	vf.Assert(e.Predict(row, iters, want) == nil, "prediction of all iterations succeeds")
	for i := range want {
		vf.Observe(got[i])
		vf.Assert(vf.Same(got[i], want[i]), "all iterations")
	}
}

// HSequence : every kind of model of three iterations, as loaded and raw, and any first feature (one value, if
// there is a transformation): one model object asked again and again with
// different numbers of iterations, through different entry points, gives what a fresh model of that many iterations does each
// time; a second row, in between, changes nothing.
func HSequence() {
	vf.Steps(20000000)
	z := mk.Zoos[vf.Choose("model", len(mk.Zoos))]
	iters := 3
	if z.Linear {
		iters = 1
	}
	view := vf.Choose("view", 2)
	vf.Assume(view == 0 || z.Trans)
	e, n := z.View(z.LoadN(iters), view, iters)
	first := vf.Choose("first", 3)
	row := []float64{0.25, 0.75, -1.25}
	if view == 1 || !z.Trans {
		row[0] = vf.F64("x")
	}
	other := []float64{1.5, -0.5, 2}
	for s, used := range []int{2, 1, 3, 1, 0, 2} {
		entry := (first + s) % 3
		if s%2 == 1 && n == 1 {
			entry = 5
		}
		if s == 4 {
			entry = 3
		}
		if s == 3 {
			_, err := call(e, 0, other, 2, n)
			vf.Assert(err == nil, "prediction succeeds")
		}
		got, err := call(e, entry, row, used, n)
		vf.Assert(err == nil, "prediction succeeds")
		if used == 0 || used > iters {
			used = iters
		}
		p, _ := z.View(z.LoadN(used), view, used)
		want := make([]float64, n)
		vf.Assert(p.Predict(row, 0, want) == nil, "prediction of the prefix succeeds")
		for i := range want {
			vf.Assert(vf.Same(got[i], want[i]), "the number of iterations asked for now, not before")
		}
	}
	if z.Linear {
		vf.Cover("linear")
	}
}
