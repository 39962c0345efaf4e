package p08

import (
	"math"

	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HSymbolic : any finite float32 base score and weights and any float64 row below 1e100, 1..3 features, 1..3 classes; sums and products left
// uninterpreted, in the order base score + bias, then the features.
func HSymbolic() {
	nf := 1 + vf.Choose("features-1", 3)
	ng := 1 + vf.Choose("classes-1", 3)
	fin := func(label string) float32 {
		f := vf.F32(label)
		vf.Assume(f-f == 0)
		return f
	}
	m := &mk.XG{Gbm: "gblinear", Base: fin("base score"), Features: uint32(nf), NumFeature: int32(nf), Groups: int32(ng)}
	for i := 0; i < (nf+1)*ng; i++ {
		m.Weights = append(m.Weights, fin("weight"))
	}
	e := m.MustLoad(false)
	vf.Assert(e.NFeatures() == nf && e.NRawOutputGroups() == ng && e.NEstimators() == 1, "dimensions of the model")
	row := make([]float64, nf)
	for i := range row {
		row[i] = vf.F64("x")
		vf.Assume(math.Abs(row[i]) < 1e100)
	}
	out := make([]float64, ng)
	for k := range out {
		out[k] = vf.F64("previous content")
	}
	vf.Assert(e.Predict(row, 0, out) == nil, "prediction succeeds")
	for k := range out {
		want := float64(m.Base) + float64(m.Weights[nf*ng+k])
		scale := math.Abs(float64(m.Base)) + math.Abs(float64(m.Weights[nf*ng+k]))
		for i := 0; i < nf; i++ {
			p := row[i] * float64(m.Weights[i*ng+k])
			want += p
			scale += math.Abs(p)
		}
		vf.Assert(vf.Close(out[k], want, scale), "base score plus bias plus weighted features")
	}
}

// value is one of several doubles whose products with small weights are exact, an infinity or NaN.
func value(label string) float64 {
	return []float64{0, 1, -3, 1024.5, -0.25, 7, math.Inf(1), math.Inf(-1), math.NaN()}[vf.Choose(label, 9)]
}

// HExact : exact values, 1..3 features, 1..3 classes, 2 rows through every entry point, absent sparse entries
// count as 0, up to two columns that the model does not have count nothing.
func HExact() {
	nf := 1 + vf.Choose("features-1", 3)
	ng := 1 + vf.Choose("classes-1", 3)
	m := &mk.XG{Gbm: "gblinear", Base: 0.5, Features: uint32(nf), NumFeature: int32(nf), Groups: int32(ng)}
	for i := 0; i < (nf+1)*ng; i++ {
		m.Weights = append(m.Weights, float32(i*i)+0.25)
	}
	if vf.Choose("zero weights", 2) == 1 {
		for i := 0; i < len(m.Weights); i += 2 {
			m.Weights[i] = 0
		}
	}
	e := m.MustLoad(false)
	rows := make([]float64, 2*nf)
	special := vf.Choose("special place", 2*nf)
	for i := range rows {
		rows[i] = float64(i + 1)
	}
	rows[special] = value("value")
	out := make([]float64, 2*ng)
	for i := range out {
		out[i] = vf.F64("previous content")
	}
	n := vf.Choose("asked", 3) - 1
	// columns that the model does not have
	nc := nf + vf.Choose("more columns", 3)
	wide := make([]float64, 2*nc)
	for i := range wide {
		wide[i] = float64(10 * i)
		if i%nc < nf {
			wide[i] = rows[i/nc*nf+i%nc]
		}
	}
	switch vf.Choose("entry", 3) {
	case 0:
		for r := 0; r < 2; r++ {
			vf.Assert(e.Predict(wide[r*nc:(r+1)*nc], n, out[r*ng:(r+1)*ng]) == nil, "prediction succeeds")
		}
	case 1:
		vf.Assert(e.PredictDense(wide, 2, nc, out, n, 1) == nil, "prediction succeeds")
	case 2:
		indptr, cols, vals := []int{0}, []int{}, []float64{}
		for r := 0; r < 2; r++ {
			for i := nc - 1; i >= 0; i-- {
				if wide[r*nc+i] != 0 {
					cols = append(cols, i)
					vals = append(vals, wide[r*nc+i])
				}
			}
			indptr = append(indptr, len(vals))
		}
		vf.Assert(e.PredictCSR(indptr, cols, vals, out, n, 1) == nil, "prediction succeeds")
	}
	for r := 0; r < 2; r++ {
		for k := 0; k < ng; k++ {
			want := 0.5 + float64(m.Weights[nf*ng+k])
			for i := 0; i < nf; i++ {
				want += rows[r*nf+i] * float64(m.Weights[i*ng+k])
			}
			vf.Observe(out[r*ng+k])
			vf.Assert(vf.Same(out[r*ng+k], want), "base score plus bias plus weighted features")
		}
	}
}

// HWide : 300 features and 5 classes with exact values.
func HWide() {
	nf, ng := 300, 5
	m := &mk.XG{Gbm: "gblinear", Base: 2, Features: uint32(nf), NumFeature: int32(nf), Groups: int32(ng)}
	for i := 0; i < (nf+1)*ng; i++ {
		m.Weights = append(m.Weights, float32(i%97)-30)
	}
	e := m.MustLoad(false)
	row := make([]float64, nf)
	for i := range row {
		row[i] = float64((i*31)%19 - 9)
	}
	j := []int{0, 1, 15, 255, 256, 299}[vf.Choose("place", 6)]
	row[j] = value("value")
	out := make([]float64, ng)
	vf.Assert(e.Predict(row, 0, out) == nil, "prediction succeeds")
	for k := range out {
		want := 2 + float64(m.Weights[nf*ng+k])
		for i := range row {
			want += row[i] * float64(m.Weights[i*ng+k])
		}
		vf.Assert(vf.Same(out[k], want), "base score plus bias plus weighted features of a wide model")
	}
}

// HVeryWide : 70000 features, one value anywhere among some places.
func HVeryWide() {
	const nf = 70000
	vf.Steps(60000000)
	m := &mk.XG{Gbm: "gblinear", Base: 2, Features: nf, NumFeature: nf}
	for i := 0; i <= nf; i++ {
		m.Weights = append(m.Weights, float32(i%1021)-30)
	}
	e := m.MustLoad(false)
	row := make([]float64, nf)
	j := []int{0, 1, 65535, 65536, 65537, 69999}[vf.Choose("place", 6)]
	row[j] = value("value")
	vf.Assert(vf.Same(mk.Predict(e, row), 2+float64(m.Weights[nf])+row[j]*float64(m.Weights[j])), "base score plus bias plus weighted features of a very wide model")
}
