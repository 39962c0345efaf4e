package p02

import (
	"strconv"

	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HHugeSets : a chain of 32 categorical splits with the sets {i, 70000+i}, 70000 words in all; any value that truncates to one
// of ten categories.
func HHugeSets() {
	vf.Steps(2000000000)
	const n = 32
	t := &mk.Tree{NumCat: n, CatBound: mk.Is(0)}
	at := 0
	for i := 0; i < n; i++ {
		ws := make([]string, (70000+i)/32+1)
		for k := range ws {
			ws[k] = "0"
		}
		ws[0] = strconv.Itoa(1 << uint(i))
		ws[len(ws)-1] = strconv.Itoa(1 << uint((70000+i)%32))
		at += len(ws)
		t.CatThr = append(t.CatThr, ws...)
		t.CatBound = append(t.CatBound, mk.I(at))
		t.Left, t.Right = append(t.Left, mk.I(^i)), append(t.Right, mk.I(i+1))
		t.Feature, t.Dec, t.Thr, t.Leaf = append(t.Feature, "0"), append(t.Dec, "1"), append(t.Thr, mk.I(i)), append(t.Leaf, mk.I(i+1))
	}
	t.Right[n-1] = mk.I(^n)
	t.Leaf = append(t.Leaf, "1000")
	e := (&mk.LG{Trees: []*mk.Tree{t}}).MustLoad(false)
	for _, c := range []int{1, 31, 32, 4463, 69999, 70000, 70029, 70031, 70032, 135567} {
		x := vf.F64("x")
		vf.Assume(x >= float64(c) && x < float64(c+1))
		want := 1000.0
		if c < n {
			want = float64(c + 1)
		} else if c >= 70000 && c < 70000+n {
			want = float64(c - 70000 + 1)
		}
		vf.Assert(mk.Predict(e, []float64{x}) == want, "the set that has the value, of sets of 70000 words")
	}
}
