package p19

import (
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HLong : long arrays, long lines and many trees, delivered in pieces of several sizes through buffers of several sizes; the
// first rows predicted are compared with what the file says, all others with the model read in one go.
func HLong() {
	vf.Steps(400000000)
	k := vf.Choose("file", mk.LongFiles)
	f := mk.LongFile(k)
	a := plain(f)
	buf := []int{0, 16, 100}[vf.Choose("buffer", 3)]
	size := []int{3, 1000, 4096, 1 << 20}[vf.Choose("piece", 4)]
	vf.Assume(buf == 0 || size == 1<<20 || size == 3)
	s := &mk.Stream{Data: f.Bytes[:f.Complete], Err: mk.EOF, Size: func(int) int { return size }}
	b, err := mk.LoadFrom(f.Kind, s, buf, f.Trans)
	vf.Assert(err == nil && b != nil, "a long model is loaded")
	vf.Assert(a.NFeatures() == b.NFeatures() && a.NEstimators() == b.NEstimators() && a.NRawOutputGroups() == b.NRawOutputGroups(), "the same dimensions")
	row := make([]float64, f.Features)
	n := a.NOutputGroups()
	p, q := make([]float64, n), make([]float64, n)
	for _, v := range []float64{0.75, 254.75, 344.75, 1011.5, 1490.25, 9995.5, 1e6} {
		for i := range row {
			row[i] = v
			if len(row) > 3 && i%997 > 0 {
				row[i] = 0
			}
		}
		vf.Assert(a.Predict(row, 0, p) == nil && b.Predict(row, 0, q) == nil, "the model can be used")
		for i := range p {
			vf.Assert(vf.Same(p[i], q[i]), "the same predictions of a long model")
		}
		want := 0.0
		switch k {
		case 0:
			vf.Assert(p[1]-p[0] == 1+v*float64((len(row)+996)/997), "the weights in order")
			continue
		case 1:
			want = -1 + 3
			if v < 1500 {
				want = float64(int(v)) + 3
			}
			if v < 1 {
				want = 2
			}
		case 2:
			for i := 0; i < 400; i += 2 {
				want += float64(i * (i % 3))
			}
		case 3:
			want = 10000000
			if v > 1000 {
				want = float64(10000000 + int(v) + 1 - 1000)
			}
			if v > 9999 {
				want = -1
			}
			d := p[0] - want
			vf.Assert(d == 0.25 || d == -1.75, "the leaf of a tree with long lines and a small one")
			continue
		case 4:
			want = 9900
		case 5:
			if v < 350 {
				want = 0.5 + 0.5*float64(int(v+0.5))
			}
		default:
			continue
		}
		vf.Assert(p[0] == want, "the prediction a long file asks for")
	}
}
