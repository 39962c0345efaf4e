package p29

import (
	"math"

	"github.com/dmitryikh/leaves/util"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

func floats(n int) []float64 {
	r := make([]float64, n)
	for i := range r {
		r[i] = vf.F64("x")
		vf.Assume(!math.IsNaN(r[i]))
	}
	return r
}

func differ(a, b, thr float64) bool {
	d := a - b // NaN for equal infinities, which do not differ
	return d > thr || -d > thr
}

func threshold() float64 {
	t := vf.F64("threshold")
	vf.Assume(t >= 0)
	return t
}

// HSlices : slices of 0..3 (thorough: 4) elements each, any values but NaN, any threshold of at least zero.
func HSlices() {
	max := 4 + vf.Tier()
	a, b := floats(vf.Choose("len a", max)), floats(vf.Choose("len b", max))
	thr := threshold()
	ca, cb := append([]float64{}, a...), append([]float64{}, b...)
	err := util.AlmostEqualFloat64Slices(a, b, thr)
	n, err2 := util.NumMismatchedFloat64Slices(a, b, thr)
	if len(a) != len(b) {
		vf.Assert(err != nil && err2 != nil, "different lengths are an error")
		return
	}
	want := 0
	for i := range a {
		if differ(a[i], b[i], thr) {
			want++
		}
		vf.Assert(vf.SameBits(a[i], ca[i]) && vf.SameBits(b[i], cb[i]), "the arguments are left alone")
	}
	vf.Assert(err2 == nil && n == want, "the number of pairs that differ by more than the threshold")
	vf.Assert((err == nil) == (want == 0), "success exactly when no pair differs by more than the threshold")
	vf.ObserveInt(n)
	if len(a) == 3 && want == 2 {
		vf.Cover("two of three differ")
	}
}

// HPair : any two finite values.
func HPair() {
	a, b := vf.F64("a"), vf.F64("b")
	vf.Assume(a-a == 0 && b-b == 0)
	thr := threshold()
	vf.Assert(util.AlmostEqualFloat64(a, b, thr) == !differ(a, b, thr), "equal exactly within the threshold")
}

// HEdges : the boundary of exact thresholds: values that differ by exactly the threshold, or by one ulp more.
func HEdges() {
	a := vf.F64("a")
	vf.Assume(a-a == 0)
	thr := []float64{0, 1, math.Inf(1), 5e-324, math.MaxFloat64}[vf.Choose("threshold", 5)]
	b := []float64{0, -1, a, math.MaxFloat64, math.Inf(1)}[vf.Choose("b", 5)]
	want := 0
	if differ(a, b, thr) {
		want = 1
	}
	n, err := util.NumMismatchedFloat64Slices([]float64{a}, []float64{b}, thr)
	vf.Assert(err == nil && n == want, "the number of pairs that differ by more than the threshold")
	vf.Assert((util.AlmostEqualFloat64Slices([]float64{b}, []float64{a}, thr) == nil) == (want == 0), "success exactly when no pair differs")
}
