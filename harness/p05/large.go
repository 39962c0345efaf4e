package p05

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HManySets : a chain of 280 categorical and numerical splits with sets of one category, one word or 65 words.
func HManySets() {
	n := 280
	vf.Steps(120000000)
	t := &mk.Tree{CatBound: mk.Is(0)}
	at := 0
	for i := 0; i < n; i++ {
		t.Left, t.Right = append(t.Left, mk.I(^i)), append(t.Right, mk.I(i+1))
		t.Feature, t.Leaf = append(t.Feature, "1"), append(t.Leaf, mk.I(i+1))
		if i%4 == 3 {
			t.Dec, t.Thr, t.CatList = append(t.Dec, "10"), append(t.Thr, mk.I(-i)), append(t.CatList, "")
			continue
		}
		s := []int{i}
		if i%4 == 1 {
			s = []int{i &^ 1, i | 1}
		} else if i%4 == 2 {
			s = []int{i, 2000 + i}
		}
		ws := make([]int, s[len(s)-1]/32+1)
		l := ""
		for k, c := range s {
			ws[c/32] |= 1 << uint(c%32)
			if k > 0 {
				l += "||"
			}
			l += mk.I(c)
		}
		t.CatThr = append(t.CatThr, mk.Is(ws...)...)
		at += len(ws)
		t.CatBound = append(t.CatBound, mk.I(at))
		t.Dec, t.Thr, t.CatList = append(t.Dec, "9"), append(t.Thr, mk.I(t.NumCat)), append(t.CatList, l)
		t.NumCat++
	}
	t.Right[n-1] = mk.I(^n)
	t.Leaf = append(t.Leaf, "1000")
	x := vf.F64("x")
	b := []int{-n, -3, n - 8, 2000 - 2, 2000 + n - 6}[vf.Choose("window", 5)]
	vf.Assume(x > float64(b) && x < float64(b+6))
	same(&mk.LG{MaxFeature: 1, Trees: []*mk.Tree{t}}, []float64{1, x})
}

// HManyTrees : 2 classes and 130 iterations of stumps and single leaves.
func HManyTrees() {
	vf.Steps(120000000)
	m := &mk.LG{NumClass: 2, MaxFeature: 1}
	for j := 0; j < 260; j++ {
		if j%7 == 3 {
			m.Trees = append(m.Trees, &mk.Tree{Leaf: mk.Is(j)})
			continue
		}
		m.Trees = append(m.Trees, &mk.Tree{Left: mk.Is(-1), Right: mk.Is(-2), Feature: mk.Is(j % 2), Thr: mk.Is(j % 3), Dec: mk.Is(2), Leaf: mk.Is(j, -j)})
	}
	x := vf.F64("x")
	vf.Assume(x > -1 && x < 3)
	same(m, []float64{1, x})
}
