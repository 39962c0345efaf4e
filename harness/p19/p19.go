package p19

import (
	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

func number() float32 {
	f := vf.F32("number")
	vf.Assume(f-f == 0)
	return f
}

func one() float32 { return 1.5 }

// same compares two models: what they report and what they predict, raw and by leaves, on a row of any values.
func same(a, b *leaves.Ensemble, err error, n int) {
	vf.Assert(err == nil && b != nil, "the model is loaded")
	vf.Assert(a.Name() == b.Name() && a.NFeatures() == b.NFeatures() && a.NEstimators() == b.NEstimators() && a.NRawOutputGroups() == b.NRawOutputGroups() &&
		a.NOutputGroups() == b.NOutputGroups() && a.Transformation().Name() == b.Transformation().Name(), "the same dimensions")
	row := make([]float64, n)
	for i := range row {
		row[i] = vf.F64("x")
	}
	predict := func(a, b *leaves.Ensemble) {
		p, q := make([]float64, a.NOutputGroups()), make([]float64, b.NOutputGroups())
		vf.Assert(a.Predict(row, 0, p) == nil && b.Predict(row, 0, q) == nil, "the model can be used")
		for i := range p {
			vf.Assert(vf.Same(p[i], q[i]), "the same predictions")
		}
	}
	predict(a.EnsembleWithRawPredictions(), b.EnsembleWithRawPredictions())
	if l := len(a.NLeaves()); l > 0 {
		vf.Assert(len(b.NLeaves()) == l, "the same leaves")
		predict(a.EnsembleWithLeafPredictions(), b.EnsembleWithLeafPredictions())
	}
}

// plain loads a model from a stream that delivers all it is asked for.
func plain(f mk.FileOf) *leaves.Ensemble {
	e, err := mk.LoadFrom(f.Kind, &mk.Stream{Data: f.Bytes[:f.Complete], Err: mk.EOF}, 0, f.Trans)
	vf.Assert(err == nil && e != nil, "the model is loaded")
	return e
}

var sizes = []int{0, 16, 17, 32, 100}

// pieces : streams that arrive in pieces of 1 to 20 (and larger) bytes, through buffers of several sizes, with the end of file
// after or together with the last piece, each piece possibly after a read of nothing.
func pieces(f mk.FileOf) {
	a := plain(f)
	k := vf.Choose("piece", 24)
	size := 1 + k
	if k >= 20 {
		size = []int{63, 136, 512, 4096}[k-20]
	}
	buf := sizes[vf.Choose("buffer", len(sizes))]
	s := &mk.Stream{Data: f.Bytes[:f.Complete], Err: mk.EOF, WithData: vf.Choose("end with data", 2) == 1, Idle: vf.Choose("idle", 2) == 1, Size: func(int) int { return size }}
	b, err := mk.LoadFrom(f.Kind, s, buf, f.Trans)
	same(a, b, err, f.Features)
}

// HPieces : XGBoost, scikit-learn and LightGBM JSON.
func HPieces() {
	i := vf.Choose("file", len(mk.Files))
	pieces(mk.Files[i](one))
}

// splits : a stream that arrives in two (thorough: three) pieces, split at every byte.
func splits(f mk.FileOf) {
	a := plain(f)
	at := vf.Choose("split", f.Complete)
	to := f.Complete
	if vf.Tier() > 0 {
		to = at + 1 + vf.Choose("second", 24)
	}
	size := func(pos int) int {
		if pos < at {
			return at - pos
		}
		if pos < to {
			return to - pos
		}
		return f.Complete
	}
	s := &mk.Stream{Data: f.Bytes[:f.Complete], Err: mk.EOF, Size: size}
	b, err := mk.LoadFrom(f.Kind, s, 0, f.Trans)
	same(a, b, err, f.Features)
}

// HSplitText : a LightGBM text.
func HSplitText() { splits(mk.Files[1](one)) }

// HSplitJSON : a LightGBM JSON dump.
func HSplitJSON() { splits(mk.Files[2](one)) }

// HSplitTree : an XGBoost model with arbitrary numbers.
func HSplitTree() { splits(mk.Files[3](number)) }

// HSplitDart : a dart model with arbitrary numbers.
func HSplitDart() { splits(mk.Files[4](number)) }

// HSplitLinear : a gblinear model.
func HSplitLinear() { splits(mk.Files[5](one)) }

// HSplitSklearn : a scikit-learn pickle.
func HSplitSklearn() { splits(mk.Files[6](one)) }

// HAfter : up to 9 arbitrary bytes after the model, and a failure to read instead of the end of file.
func HAfter() {
	f := mk.Files[vf.Choose("file", len(mk.Files))](number)
	a := plain(f)
	n := []int{0, 1, 2, 9}[vf.Choose("bytes", 4)]
	data := append([]byte{}, f.Bytes[:f.Complete]...)
	if f.Kind == mk.KindLG {
		data = append(data, '\n')
	}
	for i := 0; i < n; i++ {
		c := byte("{]}x \n.\x00\xff"[i])
		if f.Kind != mk.KindJSON || n == 1 {
			c = vf.Byte("byte")
		}
		data = append(data, c)
	}
	s := &mk.Stream{Data: data, Err: mk.EOF}
	switch vf.Choose("end", 3) {
	case 1:
		s.Err = mk.ErrRead
	case 2:
		s.Err, s.WithData = mk.ErrRead, true
	}
	b, err := mk.LoadFrom(f.Kind, s, 0, f.Trans)
	same(a, b, err, f.Features)
}

// HFile : the model opened by name.
func HFile() {
	f := mk.Files[vf.Choose("file", len(mk.Files))](number)
	vf.Assume(f.Kind != mk.KindJSON)
	a := plain(f)
	b, err := mk.LoadPath(f.Kind, vf.TempFile("model", f.Bytes), f.Trans)
	same(a, b, err, f.Features)
	if f.Trans {
		b, err = mk.LoadPath(f.Kind, vf.TempFile("model2", f.Bytes), false)
		vf.Assert(err == nil && b.Transformation().Name() == "raw", "without a transformation when none is asked for")
	}
}

// HTwice : two models from one stream, the second behind the first, read through the same buffer.
func HTwice() {
	i := vf.Choose("file", len(mk.Files))
	f := mk.Files[i](one)
	vf.Assume(f.Kind != mk.KindJSON)
	a := plain(f)
	data := append([]byte{}, f.Bytes[:f.Complete]...)
	if f.Kind == mk.KindLG {
		data = append(data, '\n')
	}
	data = append(data, data...)
	r := mk.Buffered(&mk.Stream{Data: data, Err: mk.EOF}, 16)
	for k := 0; k < 2; k++ {
		b, err := mk.LoadBuffered(f.Kind, r, f.Trans)
		same(a, b, err, f.Features)
	}
}

// HManyTrees : XGBoost, LightGBM and scikit-learn models of 40 trees through buffers of several sizes.
func HManyTrees() {
	const n = 40
	vf.Steps(60000000)
	var data []byte
	kind := []int{mk.KindXG, mk.KindLG, mk.KindSK}[vf.Choose("kind", 3)]
	switch kind {
	case mk.KindXG:
		m := &mk.XG{Features: 1, Groups: 2}
		for i := 0; i < n; i++ {
			m.Trees = append(m.Trees, mk.XStump(0, true, float32(i), 1, 2))
		}
		data = m.Bytes()
	case mk.KindLG:
		m := &mk.LG{NumClass: 2}
		for i := 0; i < n; i++ {
			m.Trees = append(m.Trees, &mk.Tree{Left: mk.Is(-1), Right: mk.Is(-2), Feature: mk.Is(0), Dec: mk.Is(2), Thr: mk.Is(i), Leaf: mk.Is(1, 2)})
		}
		data = []byte(m.Text())
	default:
		m := &mk.SK{Classes: 2, Features: 1, Prior: []float64{0}}
		for i := 0; i < n; i++ {
			m.Trees = append(m.Trees, mk.SKStump(0, float64(i), 1, 2))
		}
		data = m.Bytes()
	}
	f := mk.FileOf{Kind: kind, Bytes: data, Complete: len(data), Features: 1}
	a := plain(f)
	buf := []int{16, 100, 4096}[vf.Choose("buffer", 3)]
	size := []int{1, 7, 64, 1 << 20}[vf.Choose("piece", 4)]
	b, err := mk.LoadFrom(kind, &mk.Stream{Data: data, Err: mk.EOF, Size: func(int) int { return size }}, buf, false)
	vf.Assert(err == nil && b != nil && b.NEstimators() == a.NEstimators(), "a model of many trees is loaded")
	x := []float64{vf.F64("x")}
	vf.Assume(x[0] > 17 && x[0] < 20)
	p, q := make([]float64, a.NOutputGroups()), make([]float64, a.NOutputGroups())
	vf.Assert(a.Predict(x, 0, p) == nil && b.Predict(x, 0, q) == nil, "the model can be used")
	for i := range p {
		vf.Assert(vf.Same(p[i], q[i]), "the same predictions")
	}
}
