package p17

import (
	"math"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// use runs one of the calls that a caller may make on a model, on values that start with x: the prediction entry points on one
// row, a batch of three rows, the same through a view made here, and the queries. It returns what the caller gets.
func use(z mk.Zoo, e *leaves.Ensemble, op int, x float64) []float64 {
	row := []float64{x, 0.75, -2}
	n := z.Outputs
	switch op {
	case 6, 7: // raw view
		e, n = z.View(e, 1, z.Iters)
		op -= 6
	case 8, 9: // leaf view
		e, n = z.View(e, 2, z.Iters)
		op -= 8
	}
	switch op {
	case 0:
		out := make([]float64, n)
		vf.Assert(e.Predict(row, 0, out) == nil, "Predict succeeds")
		return out
	case 1:
		out := make([]float64, 3*n)
		m := []float64{1, 2, 3, x, 0.75, -2, math.NaN(), -1, x}
		vf.Assert(e.PredictDense(m, 3, 3, out, 0, 2) == nil, "PredictDense succeeds")
		return out
	case 2:
		out := make([]float64, 3*n)
		vf.Assert(e.PredictCSR([]int{0, 1, 1, 3}, []int{2, 0, 1}, []float64{x, -1, x}, out, 0, 2) == nil, "PredictCSR succeeds")
		return out
	case 3:
		return []float64{e.PredictSingle(row, 0)}
	case 4:
		return facts(e)
	case 5:
		if z.Iters < 2 {
			return nil
		}
		out := make([]float64, n)
		vf.Assert(e.Predict(row, 1, out) == nil, "Predict succeeds")
		return out
	}
	return nil
}

const ops = 10

func facts(e *leaves.Ensemble) []float64 {
	r := []float64{float64(e.NFeatures()), float64(e.NEstimators()), float64(e.NRawOutputGroups()), float64(e.NOutputGroups()),
		float64(e.Transformation().Type()), float64(len(e.Name())), float64(len(e.Transformation().Name()))}
	for _, l := range e.NLeaves() {
		r = append(r, float64(l))
	}
	return r
}

func equal(a, b []float64, msg string) {
	vf.Assert(len(a) == len(b), msg)
	for i := range a {
		vf.Observe(a[i])
		vf.Assert(vf.Same(a[i], b[i]), msg)
	}
}

func usable(z mk.Zoo, op int) bool {
	return (op < 8 || !z.Linear) && (op != 3 || z.Outputs == 1) && (op != 5 || z.Iters > 1)
}

// HPairs : every kind of model; any two calls made from two goroutines at once, every schedule; single rows have any value.
// Each gets what it gets alone, and no memory access of one conflicts with one of the other.
func HPairs() {
	z := mk.Zoos[vf.Choose("model", len(mk.Zoos))]
	a := vf.Choose("first call", ops)
	b := a + vf.Choose("second call", ops-a)
	vf.Assume(usable(z, a) && usable(z, b))
	e := z.Load()
	x, y := 2.5, 1.25
	if a == 0 || a == 6 || a == 8 {
		x = vf.F64("x")
	}
	vf.SetProcs(2)
	var gotA []float64
	done := make(chan bool)
	vf.Preempt(1000)
	go func() {
		gotA = use(z, e, a, x)
		close(done)
	}()
	gotB := use(z, e, b, y)
	<-done
	vf.Preempt(-1)
	equal(gotB, use(z, e, b, y), "a concurrent call returns what it returns alone")
	done = make(chan bool)
	go func() {
		equal(gotA, use(z, e, a, x), "a concurrent call returns what it returns alone")
		close(done)
	}()
	<-done
}

// HBatches : a parallel batch of 17 rows with two workers, and at the same time a batch on the same model or its raw view, every
// schedule (thorough: the second one is parallel too, up to two preemptions).
func HBatches() {
	e := (&mk.LG{MaxFeature: 2, Objective: "binary sigmoid:1", Trees: []*mk.Tree{
		{Left: mk.Is(^0), Right: mk.Is(^1), Feature: mk.Is(0), Dec: mk.Is(0), Thr: mk.Fs(0.25), Leaf: mk.Fs(1, 2)}}}).MustLoad(true)
	second := e
	if vf.Choose("view", 2) == 1 {
		second = e.EnsembleWithRawPredictions()
	}
	sparse := vf.Choose("sparse", 2) == 1
	vf.SetProcs(2)
	m := make([]float64, 17*3)
	var indptr, cols []int
	for i := range m {
		if i%3 == 0 {
			indptr = append(indptr, i)
		}
		cols = append(cols, i%3)
		m[i] = float64(i%5) - 2
	}
	indptr = append(indptr, len(m))
	run := func(e *leaves.Ensemble, threads int) []float64 {
		out := make([]float64, 17)
		var err error
		if sparse {
			err = e.PredictCSR(indptr, cols, m, out, 0, threads)
		} else {
			err = e.PredictDense(m, 17, 3, out, 0, threads)
		}
		vf.Assert(err == nil, "the batch succeeds")
		return out
	}
	var gotA []float64
	done := make(chan bool)
	threads := 1 + vf.Tier()*vf.Choose("second parallel", 2)
	if threads == 1 {
		vf.Preempt(1000)
	} else {
		vf.Preempt(2)
	}
	go func() {
		gotA = run(e, 2)
		close(done)
	}()
	gotB := run(second, threads)
	<-done
	vf.Preempt(-1)
	equal(gotA, run(e, 1), "a concurrent batch returns what it returns alone")
	equal(gotB, run(second, 1), "a concurrent batch returns what it returns alone")
}

// HHistory : every kind of model; a call, then all kinds of calls one after the other starting with any of them, and changes to
// what the queries returned: the first call keeps returning the same for every value, and the reported facts stay.
func HHistory() {
	z := mk.Zoos[vf.Choose("model", len(mk.Zoos))]
	e := z.Load()
	before := facts(e)
	x := vf.F64("x")
	op := []int{0, 2, 6, 8}[vf.Choose("call", 4)]
	vf.Assume(usable(z, op))
	first := vf.Choose("next", ops)
	want := use(z, e, op, x)
	for i := 0; i < ops; i++ {
		o := (first + i) % ops
		if usable(z, o) {
			use(z, e, o, 0.5-float64(i))
		}
		for j, l := range e.NLeaves() {
			e.NLeaves()[j] = l + 7
		}
		equal(facts(e), before, "calls do not change what the model reports")
		if i < 2 || i == ops-1 {
			equal(use(z, e, op, x), want, "calls do not change what the model predicts")
		}
	}
}

// HViews : views of views; each behaves as the same view of the model itself, whatever the order in which they are made and used.
func HViews() {
	z := mk.Zoos[vf.Choose("model", len(mk.Zoos))]
	vf.Assume(!z.Linear)
	e := z.Load()
	x := vf.F64("x")
	row := []float64{x, 0.75, -2}
	pred := func(e *leaves.Ensemble) []float64 {
		out := make([]float64, e.NOutputGroups())
		vf.Assert(e.Predict(row, 0, out) == nil, "Predict succeeds")
		return out
	}
	raw, leaf := e.EnsembleWithRawPredictions(), e.EnsembleWithLeafPredictions()
	wantRaw, wantLeaf, want := pred(raw), pred(leaf), pred(e)
	v := e
	for i := 0; i < 3; i++ {
		kind := vf.Choose("view", 2)
		if kind == 0 {
			v = v.EnsembleWithRawPredictions()
			equal(pred(v), wantRaw, "a raw view of a view is a raw view")
			equal(facts(v), facts(raw), "a raw view of a view is a raw view")
		} else {
			v = v.EnsembleWithLeafPredictions()
			equal(pred(v), wantLeaf, "a leaf view of a view is a leaf view")
			equal(facts(v), facts(leaf), "a leaf view of a view is a leaf view")
		}
	}
	equal(pred(e), want, "views leave the model as it is")
	vf.Assert(len(want) == z.Outputs && len(wantRaw) == z.Classes && len(wantLeaf) == z.Classes*z.Iters, "output counts")
}
