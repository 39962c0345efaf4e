package p01

import (
	"math"

	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

const zero = 1e-35

// missing types in decision_type
const (
	mNone = 0
	mZero = 1
	mNaN  = 2
)

// left is LightGBM's rule for a numerical split.
func left(x, thr float64, missing int, defLeft bool) bool {
	nan := x != x
	if missing == mNaN && nan {
		return defLeft
	}
	if nan {
		x = 0
	}
	if missing == mZero && x > -zero && x <= zero {
		return defLeft
	}
	return x <= thr
}

func value(label string) float64 {
	x := vf.F64(label)
	vf.Assume(x != -zero) // LightGBM's own versions differ at this one value
	return x
}

// HOneSplit : one numerical split; every finite threshold, every float64 value, all missing types and default sides.
func HOneSplit() {
	missing := vf.Choose("missing type", 3)
	def := vf.Choose("default left", 2)
	thr := vf.F64("threshold")
	t := &mk.Tree{Left: mk.Is(-1), Right: mk.Is(-2), Feature: mk.Is(1), Thr: []string{mk.FiniteTok(thr)},
		Dec: mk.Is(missing<<2 | def<<1), Leaf: mk.Fs(10, 20)}
	e := (&mk.LG{MaxFeature: 1, Trees: []*mk.Tree{t}}).MustLoad(false)
	x := value("x")
	got := mk.Predict(e, []float64{0.5, x})
	vf.Observe(got)
	vf.Assert(got == 10 || got == 20, "one of the leaves is reached")
	vf.Assert((got == 10) == left(x, thr, missing, def == 1), "the value goes to LightGBM's side")
	if missing == mNaN && x != x {
		vf.Cover("NaN at a NaN split")
	}
	if missing == mZero && x == 0 {
		vf.Cover("zero at a Zero split")
	}
	if missing == mNone && x != x {
		vf.Cover("NaN at a None split")
	}
	if x == thr {
		vf.Cover("value on the threshold")
	}
}

// HTwoSplits : two numerical splits of independent kinds in one tree on the same or on different features; the second is
// the root's left or right child; symbolic thresholds and values.
func HTwoSplits() {
	var m, d [2]int
	var thr [2]float64
	var dec, ths []string
	for i := range m {
		m[i] = vf.Choose("missing type", 3)
		d[i] = vf.Choose("default left", 2)
		thr[i] = vf.F64("threshold")
		dec = append(dec, mk.I(m[i]<<2|d[i]<<1))
		ths = append(ths, mk.FiniteTok(thr[i]))
	}
	sameFeature := vf.Choose("same feature", 2) == 1
	onLeft := vf.Choose("second split is the left child", 2) == 1
	f2 := 0
	if sameFeature {
		f2 = 1
	}
	t := &mk.Tree{Left: mk.Is(-1, -2), Right: mk.Is(1, -3), Feature: mk.Is(1, f2), Thr: ths, Dec: dec, Leaf: mk.Fs(10, 20, 40)}
	if onLeft {
		t.Left, t.Right = mk.Is(1, -2), mk.Is(-1, -3)
	}
	e := (&mk.LG{MaxFeature: 1, Version: "v2", Trees: []*mk.Tree{t}}).MustLoad(false)
	row := []float64{value("x0"), value("x1")}
	got := mk.Predict(e, row)
	vf.Observe(got)
	l0 := left(row[1], thr[0], m[0], d[0] == 1)
	l1 := left(row[f2], thr[1], m[1], d[1] == 1)
	want := 10.0
	if l0 == onLeft {
		want = 40
		if l1 {
			want = 20
		}
	}
	vf.Assert(got == want, "two splits route the row to LightGBM's leaf")
	if got == 40 {
		vf.Cover("second split, right")
	}
	if math.IsNaN(row[1]) {
		vf.Cover("NaN value")
	}
}
