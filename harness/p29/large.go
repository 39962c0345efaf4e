package p29

import (
	"github.com/dmitryikh/leaves/util"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HLong : slices of 300 and 70000 elements; one pair of finite values anywhere among some places, every third of the other
// pairs differing by 1, or none.
func HLong() {
	vf.Steps(60000000)
	n := []int{300, 70000}[vf.Choose("length", 2)]
	at := []int{0, 1, 255, 256, 65535, 65536, n - 1}[vf.Choose("at", 7)]
	vf.Assume(at < n)
	other := vf.Choose("others differ", 2) == 1
	a, b := make([]float64, n), make([]float64, n)
	want := 0
	for i := range a {
		a[i], b[i] = float64(i), float64(i)
		if other && i%3 == 1 && i != at {
			b[i]++
			want++
		}
	}
	a[at], b[at] = vf.F64("a"), vf.F64("b")
	vf.Assume(a[at]-a[at] == 0 && b[at]-b[at] == 0)
	if differ(a[at], b[at], 0.5) {
		want++
	}
	k, err := util.NumMismatchedFloat64Slices(a, b, 0.5)
	vf.Assert(err == nil && k == want, "the number of pairs of long slices that differ")
	vf.Assert((util.AlmostEqualFloat64Slices(a, b, 0.5) == nil) == (want == 0), "success exactly when no pair of long slices differs")
	_, err = util.NumMismatchedFloat64Slices(a, b[:n-1], 0.5)
	vf.Assert(err != nil, "one element more is an error")
	_, err = util.NumMismatchedFloat64Slices(a[:n-1], b, 0.5)
	vf.Assert(err != nil, "one element less is an error")
	vf.Assert(util.AlmostEqualFloat64Slices(a[:n-1], b, 1e300) != nil && util.AlmostEqualFloat64Slices(a, b[:n-1], 1e300) != nil, "different lengths are an error")
}
