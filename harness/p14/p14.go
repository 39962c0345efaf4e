package p14

import (
	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

const width = 3

type batch struct {
	rows       int
	dense      []float64
	indptr     []int
	cols       []int
	vals       []float64
	want       []float64
	n          int
	e          *leaves.Ensemble
	sparse     bool
	asked      int
	concurrent []float64
	over       int // columns of the dense matrix behind the model's
}

// data has rows of distinct fixed values; the rows at the batch borders have any value in one column.
func data(z mk.Zoo, e *leaves.Ensemble, n, rows, asked int, symbolic bool) *batch {
	b := &batch{rows: rows, dense: make([]float64, rows*width), indptr: []int{0}, n: n, e: e, asked: asked, want: make([]float64, rows*n)}
	for r := 0; r < rows; r++ {
		for c := 0; c < width; c++ {
			i := r*width + c
			b.dense[i] = z.Absent
			if (r+c)%3 == 0 {
				continue
			}
			b.dense[i] = float64((r*7+c*5)%9) - 3.5
			if symbolic && c == (r+1)%3 && (r == 16 || r == rows-1) {
				b.dense[i] = vf.F64("x")
			}
			b.cols = append(b.cols, c)
			b.vals = append(b.vals, b.dense[i])
		}
		b.indptr = append(b.indptr, len(b.cols))
	}
	for r := 0; r < rows; r++ {
		vf.Assert(e.Predict(b.dense[r*width:(r+1)*width], asked, b.want[r*n:(r+1)*n]) == nil, "the single-row prediction succeeds")
	}
	return b
}

func (b *batch) run(threads int) {
	got := make([]float64, b.rows*b.n+1)
	for i := range got {
		got[i] = 77
	}
	var err error
	if b.sparse {
		err = b.e.PredictCSR(b.indptr, b.cols, b.vals, got, b.asked, threads)
	} else {
		vals := b.dense
		if b.over > 0 {
			vals = nil
			for r := 0; r < b.rows; r++ {
				vals = append(append(vals, b.dense[r*width:(r+1)*width]...), make([]float64, b.over)...)
			}
		}
		err = b.e.PredictDense(vals, b.rows, width+b.over, got, b.asked, threads)
	}
	vf.Assert(err == nil, "the batch prediction succeeds")
	for i := range b.want {
		vf.Observe(got[i])
		vf.Assert(vf.Same(got[i], b.want[i]), "every row of a batch equals its single-row prediction")
	}
	vf.Assert(got[len(b.want)] == 77, "nothing is written behind the outputs")
}

// HSchedules : two and three workers over two and three batches (17, 33 rows; thorough: 49 rows for two workers), dense and
// sparse (three workers dense: thorough only), the dense matrix of 33 and more rows wider than the model; every order of the goroutines at blocking points and before every synchronising operation, without a bound on
// preemptions; rows at the batch borders have any values. Races are looked for by the happens-before order.
func HSchedules() {
	rows := []int{17, 33, 49}[vf.Choose("rows", 2+vf.Tier())]
	threads := 2 + vf.Choose("threads-2", 2)
	k := 0
	if rows == 17 {
		k = []int{0, 1, 5, 6, 7, 8}[vf.Choose("model", 6)]
		vf.Assume(threads == 2)
	}
	vf.Assume(rows < 49 || threads == 2)
	z := mk.Zoos[k]
	if rows > 17 {
		z.LoadN = func(int) *leaves.Ensemble {
			t := &mk.Tree{Left: mk.Is(^0), Right: mk.Is(^1), Feature: mk.Is(0), Dec: mk.Is(0), Thr: mk.Fs(0.25), Leaf: mk.Fs(1, 2)}
			return (&mk.LG{MaxFeature: 2, Trees: []*mk.Tree{t}}).MustLoad(false)
		}
	}
	e := z.Load()
	vf.SetProcs(4)
	b := data(z, e, z.Outputs, rows, 0, rows == 17)
	b.sparse = vf.Choose("sparse", 2) == 1
	vf.Assume(threads == 2 || b.sparse || vf.Tier() == 1)
	b.over = rows / 33
	vf.Preempt(1000)
	b.run(threads)
	if rows == 33 && threads == 3 && b.sparse {
		vf.Cover("three workers, three batches, sparse")
	}
}

// HThreads : any int as the thread count, 1, 2, 3 or 8 processors, 0..50 rows, every kind of model and view, dense (also with
// more columns than features) and sparse; values at the batch borders are arbitrary; one schedule.
func HThreads() {
	z, e, _, n := mk.ChooseZoo()
	procs := []int{1, 2, 3, 8}[vf.Choose("processors", 4)]
	vf.SetProcs(procs)
	vf.Preempt(-1)
	rows := []int{0, 1, 16, 17, 50}[vf.Choose("rows", 5)]
	vf.Assume(vf.Tier() == 1 || rows == 50 || procs < 3)
	threads := int(vf.I64("threads"))
	b := data(z, e, n, rows, 0, true)
	b.sparse = vf.Choose("sparse", 2) == 1
	if !b.sparse && procs == 2 {
		b.over = 2
	}
	b.run(threads)
	if rows == 50 && threads > 3 {
		vf.Cover("more threads than batches")
	}
	if rows == 17 && threads < 0 {
		vf.Cover("negative thread count")
	}
}

// HIterations : a batch with fewer iterations than the model has, two workers, every schedule.
func HIterations() {
	z := mk.Zoos[[]int{1, 5}[vf.Choose("model", 2)]]
	e := z.Load()
	vf.SetProcs(2)
	b := data(z, e, z.Outputs, 17, 1, true)
	b.sparse = vf.Choose("sparse", 2) == 1
	vf.Preempt(1000)
	b.run(-3)
}
