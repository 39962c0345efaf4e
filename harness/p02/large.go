package p02

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HManySets : a chain of 290 categorical splits with sets of one category, one word or 65 words, and another tree in front with
// sets of its own; values around the members of the first, the 256th and the last set, any fraction.
func HManySets() {
	const n = 290
	vf.Steps(60000000)
	set := func(i int) []int {
		switch i % 3 {
		case 0:
			return []int{i}
		case 1:
			return []int{i, i | 31 - i&31%2}
		}
		return []int{i, 2000 + i}
	}
	t := &mk.Tree{NumCat: n, CatBound: mk.Is(0)}
	at := 0
	for i := 0; i < n; i++ {
		s := set(i)
		ws := make([]int, s[len(s)-1]/32+1)
		for _, c := range s {
			ws[c/32] |= 1 << uint(c%32)
		}
		t.CatThr = append(t.CatThr, mk.Is(ws...)...)
		at += len(ws)
		t.CatBound = append(t.CatBound, mk.I(at))
		t.Left, t.Right = append(t.Left, mk.I(^i)), append(t.Right, mk.I(i+1))
		t.Feature, t.Dec, t.Thr, t.Leaf = append(t.Feature, "1"), append(t.Dec, "1"), append(t.Thr, mk.I(i)), append(t.Leaf, mk.I(i+1))
	}
	t.Right[n-1] = mk.I(^n)
	t.Leaf = append(t.Leaf, "1000")
	o := &mk.Tree{Left: mk.Is(-1), Right: mk.Is(-2), Feature: mk.Is(0), Thr: mk.Is(1), Dec: mk.Is(1), Leaf: mk.Fs(0, 5000), NumCat: 2, CatBound: mk.Is(0, 1, 2), CatThr: mk.Is(1, 2)}
	e := (&mk.LG{MaxFeature: 1, Trees: []*mk.Tree{o, t}}).MustLoad(false)
	b := []int{-2, 254, n - 3, 1999, 2254, 2000 + n - 3}[vf.Choose("window", 6)]
	x := vf.F64("x")
	vf.Assume(x > float64(b) && x < float64(b+5))
	want := 0.0
	for d := 0; d < 5; d++ {
		c := b + d
		lo, hi := float64(c), float64(c+1)
		if c == -1 {
			continue // rounds up to 0
		}
		if c == 0 {
			lo = -1
		}
		first := 1000.0
		for i := n - 1; i >= 0; i-- {
			for _, m := range set(i) {
				if m == c {
					first = float64(i + 1)
				}
			}
		}
		if c == 0 && x > -1 && x < 1 || c != 0 && x >= lo && x < hi {
			want = first
		}
	}
	if x <= -1 {
		want = 1000
	}
	got := mk.Predict(e, []float64{1, x})
	vf.Observe(got)
	vf.Assert(got == want, "the first set of many that the value is a member of")
	got = mk.Predict(e, []float64{0, x})
	vf.Assert(got == want+5000, "sets of another tree")
}
