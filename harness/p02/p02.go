package p02

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// member is membership of the truncated value in the set of words.
func member(x float64, words []uint32) bool {
	if !(x > -1 && x < 2147483648) {
		return false
	}
	k := uint32(int32(x))
	in := false
	for i, w := range words {
		if k>>5 == uint32(i) && w>>(k&31)&1 == 1 {
			in = true
		}
	}
	return in
}

func words(n int) (ws []uint32, toks []string) {
	any := uint32(0)
	for i := 0; i < n; i++ {
		w := vf.U32("category word")
		any |= w
		ws = append(ws, w)
		toks = append(toks, vf.IntTok(int64(w)))
	}
	vf.Assume(any != 0)
	return
}

// HOneSplit : one categorical split with a set of 1..3 (thorough: 1..4) words, any non-empty set; every float64 value except
// NaN where the missing type is not NaN.
func HOneSplit() {
	n := 1 + vf.Choose("words", 3+vf.Tier())
	ws, toks := words(n)
	nanMissing := vf.Choose("missing type NaN", 2) == 1
	dec := 1
	if nanMissing {
		dec |= 2 << 2
	}
	t := &mk.Tree{Left: mk.Is(-1), Right: mk.Is(-2), Feature: mk.Is(1), Thr: mk.Is(0), Dec: mk.Is(dec), Leaf: mk.Fs(10, 20),
		NumCat: 1, CatBound: mk.Is(0, n), CatThr: toks}
	e := (&mk.LG{MaxFeature: 1, Trees: []*mk.Tree{t}}).MustLoad(false)
	x := vf.F64("x")
	if !nanMissing {
		vf.Assume(x == x)
	}
	got := mk.Predict(e, []float64{0.5, x})
	vf.Observe(got)
	vf.Assert(got == 10 || got == 20, "one of the leaves is reached")
	vf.Assert((got == 10) == member(x, ws), "a value goes left exactly when it is in the set")
	if got == 10 && n > 1 {
		vf.Cover("member of a large set")
	}
	if got == 10 && n == 1 {
		vf.Cover("member of a small set")
	}
	if x != x {
		vf.Cover("NaN")
	}
}

// HTwoSplits : two categorical splits in one tree, sets of 1..2 words each (thorough: 1..3), in either order of the set
// table, plus a numerical split; the set of one split never influences the other.
func HTwoSplits() {
	na := 1 + vf.Choose("words of a", 2+vf.Tier())
	nb := 1 + vf.Choose("words of b", 2+vf.Tier())
	a, ta := words(na)
	b, tb := words(nb)
	swap := vf.Choose("set table order", 2) == 1
	t := &mk.Tree{Left: mk.Is(1, -1, -3), Right: mk.Is(2, -2, -4), Feature: mk.Is(1, 0, 2), Dec: mk.Is(1, 1, 2), Leaf: mk.Fs(1, 2, 4, 8), NumCat: 2}
	if swap {
		t.Thr = []string{"1", "0", "0.5"}
		t.CatBound = mk.Is(0, nb, nb+na)
		t.CatThr = append(append([]string{}, tb...), ta...)
	} else {
		t.Thr = []string{"0", "1", "0.5"}
		t.CatBound = mk.Is(0, na, na+nb)
		t.CatThr = append(append([]string{}, ta...), tb...)
	}
	e := (&mk.LG{MaxFeature: 2, Trees: []*mk.Tree{t}}).MustLoad(false)
	x, y, z := vf.F64("x"), vf.F64("y"), vf.F64("z")
	vf.Assume(x == x && y == y && z == z)
	got := mk.Predict(e, []float64{y, x, z})
	vf.Observe(got)
	want := 4.0
	if z > 0.5 {
		want = 8
	}
	if member(x, a) {
		want = 2
		if member(y, b) {
			want = 1
		}
	}
	vf.Assert(got == want, "each split tests its own set")
	if got == 1 {
		vf.Cover("member of both sets")
	}
}

// HKinds : three categorical splits of the three kinds (one category, one word, several words) in any order
// along a chain; each set's kind is fixed, its members are symbolic.
func HKinds() {
	one := vf.U32("single category")
	vf.Assume(one < 96)
	var w1 [3]uint32
	for i := range w1 {
		if one>>5 == uint32(i) {
			w1[i] = 1 << (one & 31)
		}
	}
	small := vf.U32("small set")
	vf.Assume(small&(small-1) != 0)
	l0, l1 := vf.U32("large set word 0"), vf.U32("large set word 1")
	vf.Assume(l0 != 0 && l1 != 0)
	sets := [][]uint32{w1[:], {small}, {l0, l1}}
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	p := perms[vf.Choose("order along the chain", 6)]
	q := perms[vf.Choose("order in the set table", 6)]
	t := &mk.Tree{Left: mk.Is(-1, -2, -3), Right: mk.Is(1, 2, -4), Feature: mk.Is(1, 1, 1), Dec: mk.Is(1, 1, 1), Leaf: mk.Fs(1, 2, 3, 4), NumCat: 3}
	at := 0
	t.CatBound = mk.Is(0)
	pos := [3]int{}
	for i, s := range q {
		for _, w := range sets[s] {
			t.CatThr = append(t.CatThr, vf.IntTok(int64(w)))
		}
		at += len(sets[s])
		t.CatBound = append(t.CatBound, mk.I(at))
		pos[s] = i
	}
	for _, s := range p {
		t.Thr = append(t.Thr, mk.I(pos[s]))
	}
	e := (&mk.LG{MaxFeature: 1, Trees: []*mk.Tree{t}}).MustLoad(false)
	x := vf.F64("x")
	vf.Assume(x == x)
	got := mk.Predict(e, []float64{0, x})
	vf.Observe(got)
	want := 4.0
	for i := 2; i >= 0; i-- {
		if member(x, sets[p[i]]) {
			want = float64(i + 1)
		}
	}
	vf.Assert(got == want, "the three encodings of a set behave alike")
	vf.Cover("kinds")
}
