package p31

import (
	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

const width = 3

// zoos are the models of mk and some that differ from one of those in classes or numbers only.
var zoos = append(append([]mk.Zoo{}, mk.Zoos...),
	mk.Zoo{Name: "lightgbm multiclass of two", Classes: 2, Iters: 2, Trans: true, Outputs: 2, LoadN: func(n int) *leaves.Ensemble {
		m := &mk.LG{NumClass: 2, MaxFeature: 2, Objective: "multiclass num_class:2"}
		for i := 0; i < 2*n; i++ {
			m.Trees = append(m.Trees, &mk.Tree{Left: mk.Is(^0), Right: mk.Is(^1), Feature: mk.Is(i % 3), Dec: mk.Is(1), Thr: mk.Is(0),
				Leaf: mk.Fs(5, float64(i)), NumCat: 1, CatBound: mk.Is(0, 1), CatThr: mk.Is(6 + i)})
		}
		return m.MustLoad(true)
	}},
	mk.Zoo{Name: "scikit-learn of two classes", Classes: 1, Iters: 1, Outputs: 1, LoadN: func(n int) *leaves.Ensemble {
		return (&mk.SK{Classes: 2, Features: 3, Prior: []float64{7}, Memo: true, Trees: []*mk.SKTree{mk.SKStump(1, 5, 30, 40)}}).MustLoad()
	}})

func facts(e *leaves.Ensemble) []float64 {
	r := []float64{float64(e.NFeatures()), float64(e.NEstimators()), float64(e.NRawOutputGroups()), float64(e.NOutputGroups()),
		float64(e.Transformation().Type()), float64(len(e.Name())), float64(len(e.Transformation().Name()))}
	for _, l := range e.NLeaves() {
		r = append(r, float64(l))
	}
	return r
}

func outputs(e *leaves.Ensemble, row []float64) []float64 {
	out := make([]float64, e.NOutputGroups())
	vf.Assert(e.Predict(row, 0, out) == nil, "prediction succeeds")
	return out
}

// all is what a model answers: its facts, and its outputs, raw scores and leaves on a row.
func all(z mk.Zoo, e *leaves.Ensemble, row []float64) []float64 {
	r := append(facts(e), outputs(e, row)...)
	r = append(r, outputs(e.EnsembleWithRawPredictions(), row)...)
	if !z.Linear {
		r = append(r, outputs(e.EnsembleWithLeafPredictions(), row)...)
	}
	return r
}

func equal(a, b []float64, msg string) {
	vf.Assert(len(a) == len(b), msg)
	for i := range a {
		vf.Observe(a[i])
		vf.Assert(vf.Same(a[i], b[i]), msg)
	}
}

func row() []float64 { return []float64{vf.F64("x"), vf.F64("y"), -2} }

// HPairs : every ordered pair of kinds of models, the second with fewer iterations: loaded one after the other, used in turn and
// in batches, on rows of any values; each answers as if it were alone, and a third load of the first kind gives the same model again.
func HPairs() {
	z, y := zoos[vf.Choose("first", len(zoos))], zoos[vf.Choose("second", len(zoos))]
	x := row()
	a := z.Load()
	alone := all(z, a, x)
	b := y.LoadN(1)
	equal(all(z, a, x), alone, "loading another model changes nothing")
	other := all(y, b, x)
	equal(all(z, a, x), alone, "using another model changes nothing")
	m := make([]float64, 3*width)
	copy(m[width:], x)
	vf.Assert(b.PredictDense(m, 3, width, make([]float64, 3*y.Outputs), 0, 1) == nil, "a batch of another model")
	vf.Assert(b.PredictCSR([]int{0, 1, 1, 3}, []int{2, 0, 1}, []float64{x[0], -1, x[1]}, make([]float64, 3*y.Outputs), 0, 1) == nil, "a batch of another model")
	equal(all(z, a, x), alone, "batches of another model change nothing")
	equal(all(y, b, x), other, "a model answers the same again")
	equal(all(z, z.Load(), x), alone, "the same file gives the same model")
}

// HFailed : after a load that fails (each kind of file, cut in the middle or near the end, or read by the wrong loader) a model of each kind is the
// model it is without, and one loaded before stays.
func HFailed() {
	z := zoos[vf.Choose("model", len(zoos))]
	x := row()
	a := z.Load()
	alone := all(z, a, x)
	f := mk.Files[vf.Choose("file", len(mk.Files))](func() float32 { return 0.5 })
	n, kind := len(f.Bytes), f.Kind
	switch vf.Choose("damage", 3) {
	case 0:
		n /= 2
	case 1:
		n -= 3
	case 2:
		kind = (kind + 2) % 5
	}
	mk.LoadFrom(kind, &mk.Stream{Data: f.Bytes[:n], Err: mk.EOF}, 0, f.Trans)
	equal(all(z, a, x), alone, "a failed load leaves other models alone")
	equal(all(z, z.Load(), x), alone, "a failed load leaves no trace")
}

// HAgain : each kind of file with one byte, every third (thorough: every), replaced by the next one (thorough: or by x), loaded twice: it is refused both
// times, with the same error, or both times it gives the same model.
func HAgain() {
	f := mk.Files[vf.Choose("file", len(mk.Files))](func() float32 { return 0.5 })
	b := append([]byte{}, f.Bytes...)
	at := vf.Choose("at", (len(b)+2)/(3-2*vf.Tier())) * (3 - 2*vf.Tier())
	vf.Assume(at < len(b))
	b[at]++
	if vf.Tier() == 1 && vf.Choose("x", 2) == 1 {
		b[at] = 'x'
	}
	load := func() (*leaves.Ensemble, error) {
		return mk.LoadFrom(f.Kind, &mk.Stream{Data: append([]byte{}, b...), Err: mk.EOF}, 0, f.Trans)
	}
	c, err := load()
	d, again := load()
	vf.Assert((err == nil) == (again == nil), "a file that is refused is refused again")
	if err != nil {
		vf.Assert(err.Error() == again.Error(), "and for the same reason")
		return
	}
	x := []float64{0.75, 40, -2}
	for len(x) < c.NFeatures() && len(x) < 300 {
		x = append(x, 1)
	}
	z := mk.Zoo{Linear: f.Kind == mk.KindLinear}
	if len(x) >= c.NFeatures() {
		equal(all(z, c, x), all(z, d, x), "the same file gives the same model")
	}
}

// HBuffer : a model does not change with the bytes that it was loaded from.
func HBuffer() {
	f := mk.Files[vf.Choose("file", len(mk.Files))](func() float32 { return 0.5 })
	b := append([]byte{}, f.Bytes...)
	s := &mk.Stream{Data: b, Err: mk.EOF}
	buf := mk.Buffered(s, 0)
	load := func() *leaves.Ensemble {
		var e *leaves.Ensemble
		var err error
		if f.Kind == mk.KindJSON {
			e, err = mk.LoadFrom(f.Kind, s, 0, f.Trans)
		} else {
			e, err = mk.LoadBuffered(f.Kind, buf, f.Trans)
		}
		vf.Assert(err == nil && e != nil, "the model is loaded")
		return e
	}
	e := load()
	x := row()
	z := mk.Zoo{Linear: f.Kind == mk.KindLinear}
	alone := all(z, e, x)
	for i := range b {
		b[i] = 'x'
	}
	equal(all(z, e, x), alone, "a model does not refer to the bytes of its file")
	*s = mk.Stream{Data: append([]byte{}, f.Bytes...), Err: mk.EOF}
	buf.Reset(s)
	equal(all(z, load(), x), alone, "the same buffer loads the same model again")
	equal(all(z, e, x), alone, "a model does not refer to the buffer of its file")
}

// HTogether : two models, of the same or of different kinds (thorough: any two), loaded and used by two goroutines at once: each gets what it gets alone, and no access of one
// conflicts with one of the other.
func HTogether() {
	i := vf.Choose("first", len(zoos))
	j := vf.Choose("second", len(zoos))
	vf.Assume(i <= j && (vf.Tier() == 1 || j <= i+1 || i == 5))
	z, y := zoos[i], zoos[j]
	vf.SetProcs(2)
	vf.Steps(60000000)
	vf.Preempt(2 + vf.Tier())
	x := []float64{0.75, 40, -2}
	var a []float64
	done := make(chan bool)
	go func() {
		a = all(z, z.Load(), x)
		close(done)
	}()
	b := all(y, y.Load(), x)
	<-done
	vf.Preempt(-1)
	equal(a, all(z, z.Load(), x), "a model loaded next to another")
	equal(b, all(y, y.Load(), x), "a model loaded next to another")
}
