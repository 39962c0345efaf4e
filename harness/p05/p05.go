package p05

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

func pick(label string, l []int) int { return l[vf.Choose(label, len(l))] }

// same predicts a row with both forms.
func same(m *mk.LG, row []float64) {
	m.Version = "v2"
	a, b := m.MustLoad(false), m.MustLoadJSON()
	nc := a.NRawOutputGroups()
	vf.Assert(b.NRawOutputGroups() == nc && b.NEstimators() == a.NEstimators() && b.NFeatures() == a.NFeatures(), "same dimensions")
	x, y := make([]float64, nc), make([]float64, nc)
	vf.Assert(a.Predict(row, 0, x) == nil && b.Predict(row, 0, y) == nil, "both predict")
	for k := range x {
		vf.Observe(x[k])
		vf.Assert(vf.Same(x[k], y[k]), "JSON and text forms predict the same")
	}
}

// HNumerical : one tree of 1..4 (thorough: 1..5) leaves, every shape and inner numbering, symbolic thresholds, leaf and feature values, one
// split of any missing type and default side, the others of missing type NaN going left.
func HNumerical() {
	n := 1 + vf.Choose("leaves-1", 4+vf.Tier())
	s := mk.ChooseShape(n)
	t := &mk.Tree{}
	special, dec := -1, 0
	if n > 1 {
		special = vf.Choose("special split", n-1)
		dec = pick("decision type", []int{0, 2, 4, 6, 8, 10})
	}
	row := []float64{vf.F64("x0"), vf.F64("x1"), vf.F64("x2"), vf.F64("x3"), vf.F64("x4")}
	for i := 0; i < n-1; i++ {
		t.Left = append(t.Left, mk.I(s.Left[i]))
		t.Right = append(t.Right, mk.I(s.Right[i]))
		t.Feature = append(t.Feature, mk.I((i*3+1)%5))
		d := 10
		if i == special {
			d = dec
		}
		t.Dec = append(t.Dec, mk.I(d))
		t.Thr = append(t.Thr, mk.FiniteTok(vf.F64("threshold")))
	}
	for i := 0; i < n; i++ {
		t.Leaf = append(t.Leaf, mk.FiniteTok(vf.F64("leaf value")))
	}
	same(&mk.LG{MaxFeature: 4, Trees: []*mk.Tree{t}}, row)
}

// set builds the two forms of a category set.
func set(t *mk.Tree, cats []int) (thr, list string) {
	max := 0
	for _, c := range cats {
		if c > max {
			max = c
		}
	}
	words := make([]uint32, max/32+1)
	for i, c := range cats {
		words[c/32] |= 1 << uint(c%32)
		if i > 0 {
			list += "||"
		}
		list += mk.I(c)
	}
	if t.NumCat == 0 {
		t.CatBound = []string{"0"}
	}
	thr = mk.I(t.NumCat)
	t.NumCat++
	for _, w := range words {
		t.CatThr = append(t.CatThr, mk.I(int(w)))
	}
	t.CatBound = append(t.CatBound, mk.I(len(t.CatThr)))
	return
}

var sets = [][]int{{0}, {31}, {33}, {1, 2, 5}, {0, 31}, {0, 32}, {3, 63, 64, 100}, {70, 65, 2}, {200}, {500, 499}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 32, 33}}

// HCategorical : a categorical split (11 sets: single, one word, several words) and a second split, numerical or
// categorical, below it on either side or in another tree; every missing type for the first; symbolic values.
func HCategorical() {
	t := &mk.Tree{}
	thr, list := set(t, sets[vf.Choose("set", len(sets))])
	miss := vf.Choose("missing type", 3)
	def := vf.Choose("default left", 2)
	t.Left, t.Right = mk.Is(-1), mk.Is(1)
	onLeft := vf.Choose("second split left", 2) == 1
	if onLeft {
		t.Left, t.Right = mk.Is(1), mk.Is(-1)
	}
	t.Left, t.Right = append(t.Left, "-2"), append(t.Right, "-3")
	t.Feature = mk.Is(0, 1)
	t.Dec = mk.Is(1|def<<1|miss<<2, 10)
	t.Thr = []string{thr, "0.5"}
	t.CatList = []string{list, ""}
	t.Leaf = mk.Is(1, 2, 4)
	if c := vf.Choose("second set", 3); c > 0 {
		thr2, list2 := set(t, sets[4*c-1])
		t.Dec[1], t.Thr[1], t.CatList[1] = "1", thr2, list2
	}
	same(&mk.LG{MaxFeature: 1, Trees: []*mk.Tree{t}}, []float64{vf.F64("x0"), vf.F64("x1")})
}

// HSymbolicSet : a set of two symbolic categories below 96.
func HSymbolicSet() {
	a, b := vf.Int("category", 0, 95), vf.Int("category", 0, 95)
	vf.Assume(a < b)
	var words []string
	for w := 0; w < 3; w++ {
		v := uint32(0)
		if a>>5 == w {
			v |= 1 << uint(a&31)
		}
		if b>>5 == w {
			v |= 1 << uint(b&31)
		}
		words = append(words, vf.IntTok(int64(v)))
	}
	t := &mk.Tree{Left: mk.Is(-1), Right: mk.Is(-2), Feature: mk.Is(0), Dec: mk.Is(1), Thr: mk.Is(0), Leaf: mk.Is(1, 2),
		NumCat: 1, CatBound: mk.Is(0, 3), CatThr: words, CatList: []string{vf.IntTok(int64(a)) + "||" + vf.IntTok(int64(b))}}
	same(&mk.LG{MaxFeature: 1, Trees: []*mk.Tree{t}}, []float64{vf.F64("x0"), 0})
}

// HModel : 1..3 classes, 1..3 iterations, split and single-leaf trees, symbolic value.
func HModel() {
	nc := 1 + vf.Choose("classes-1", 3)
	it := 1 + vf.Choose("iterations-1", 3)
	single := vf.Choose("single leaf", 4)
	m := &mk.LG{NumClass: nc, MaxFeature: 2}
	for j := 0; j < nc*it; j++ {
		t := &mk.Tree{Leaf: mk.Is(j*100 + 1)}
		if j+1 != single {
			t = &mk.Tree{Left: mk.Is(-1), Right: mk.Is(-2), Feature: mk.Is(j % 3), Thr: mk.Is(j), Dec: mk.Is(2), Leaf: mk.Is(j*100+2, j*100+3)}
		}
		m.Trees = append(m.Trees, t)
	}
	same(m, []float64{vf.F64("x0"), vf.F64("x1"), vf.F64("x2")})
}

// HLarge : a chain or bushy tree of 40 leaves, symbolic value.
func HLarge() {
	n := 40
	bushy := vf.Choose("bushy", 2) == 1
	t := &mk.Tree{}
	for i := 0; i < n-1; i++ {
		l, r := -1-i, i+1
		if i == n-2 {
			r = -n
		}
		if bushy {
			l, r = 2*i+1, 2*i+2
			if l >= n-1 {
				l = -1 - (l - (n - 1))
			}
			if r >= n-1 {
				r = -1 - (r - (n - 1))
			}
		}
		t.Left, t.Right = append(t.Left, mk.I(l)), append(t.Right, mk.I(r))
		t.Feature, t.Dec, t.Thr = append(t.Feature, mk.I(i%2)), append(t.Dec, "2"), append(t.Thr, mk.F(float64((i*7)%n)+0.5))
	}
	for i := 0; i < n; i++ {
		t.Leaf = append(t.Leaf, mk.I(1000+i))
	}
	same(&mk.LG{MaxFeature: 1, Trees: []*mk.Tree{t}}, []float64{vf.F64("x0"), vf.F64("x1")})
}
