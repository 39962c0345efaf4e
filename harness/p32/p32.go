package p32

import (
	"github.com/dmitryikh/leaves/mat"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

func number() float32 { return vf.F32("number") }

func settled() {
	vf.Assert(vf.OpenFiles() == 0, "every file is closed")
	vf.Assert(vf.Goroutines() == 0, "every goroutine ends")
}

// HModels : every kind of model file, cut at every byte, whole, or not there at all, loaded by name.
func HModels() {
	k := []int{0, 1, 3, 4, 5, 6, 7}[vf.Choose("file", 7)]
	f := mk.Files[k](number)
	at := vf.Choose("cut", len(f.Bytes)+2) - 1
	name := vf.TempName("no such model")
	if at >= 0 {
		name = vf.TempFile("model", f.Bytes[:at])
	}
	e, err := mk.LoadPath(f.Kind, name, f.Trans)
	settled()
	vf.Assert(at >= 0 || err != nil && e == nil, "a file that is not there is reported")
	if at == len(f.Bytes) {
		vf.Assert(err == nil, "the whole model is loaded")
		vf.Cover("loaded")
	}
}

// HOther : every loader on the model files of the others, with and without transformation.
func HOther() {
	f := mk.Files[vf.Choose("file", len(mk.Files))](func() float32 { return 0.5 })
	kind := []int{mk.KindLG, mk.KindXG, mk.KindLinear, mk.KindSK}[vf.Choose("loader", 4)]
	e, err := mk.LoadPath(kind, vf.TempFile("model", f.Bytes), vf.Choose("transformation", 2) == 1)
	settled()
	vf.Assert((e == nil) == (err != nil), "a model or an error")
}

// HMatrices : texts of one (thorough: two) arbitrary bytes, well-formed and malformed files and missing ones, read as delimited text and as
// libsvm, dense and sparse, with a limit and without, all columns or not the first one.
func HMatrices() {
	texts := []string{"", "1,2\n3,4\n", "1,2\n3\n", "a,b\n", "1 0:2 1:3\n1 0:5 1:6\n", "1 0:2\n1 1:3\n", "1 0:2 :\n", "1 0:2\n\n2 0:1\n"}
	k := vf.Choose("text", len(texts)+2)
	name := vf.TempName("no such matrix")
	if k < len(texts) {
		name = vf.TempFile("matrix", []byte(texts[k]))
	} else if k == len(texts) {
		b := make([]byte, 1+vf.Tier())
		for i := range b {
			b[i] = vf.Byte("byte")
		}
		name = vf.TempFile("matrix", b)
	}
	limit, skip := vf.Choose("limit", 3), vf.Choose("skip", 2) == 1
	var err error
	switch vf.Choose("reader", 3) {
	case 0:
		_, err = mat.DenseMatFromCsvFile(name, limit, skip, ",", -1)
	case 1:
		_, err = mat.DenseMatFromLibsvmFile(name, limit, skip)
	case 2:
		_, err = mat.CSRMatFromLibsvmFile(name, limit, skip)
	}
	settled()
	vf.Assert(k <= len(texts) || err != nil, "a file that is not there is reported")
}

// HWriter : consistent and inconsistent matrices of any values written to a file, a full device and a directory that is not there.
func HWriter() {
	v := []float64{vf.F64("v"), vf.F64("v"), 3, 4, 5, 6}
	m := &mat.DenseMat{Values: v, Rows: vf.Choose("rows", 4), Cols: vf.Choose("cols", 4)}
	name := vf.TempName("out")
	to := vf.Choose("to", 3)
	switch to {
	case 1:
		name = "/dev/full"
	case 2:
		name = vf.TempName("no such directory/out")
	}
	err := m.ToCsvFile(name, ",")
	settled()
	vf.Assert(to != 2 || err != nil, "a file that cannot be made is reported")
	if err != nil {
		vf.Cover("failed")
	}
}

// HBatches : batches of 0..33 rows (also refused ones, whose output is too short or whose rows are too narrow), any thread count,
// 1..8 processors, dense and sparse; every order of the goroutines at blocking points.
func HBatches() {
	rows := []int{0, 1, 16, 17, 33}[vf.Choose("rows", 5)]
	z := mk.Zoos[[]int{0, 5, 7}[vf.Choose("model", 3)]]
	e := z.Load()
	cols := 3 - vf.Choose("narrow", 2)
	vals := make([]float64, rows*cols)
	indptr, idx := []int{0}, []int{}
	for r := 0; r < rows; r++ {
		for c := 0; c < cols; c++ {
			vals[r*cols+c] = float64((r+c)%5) - 1.5
			idx = append(idx, c)
		}
		indptr = append(indptr, len(idx))
	}
	out := make([]float64, rows*z.Outputs)
	short := rows > 0 && vf.Choose("short", 2) == 1
	if short {
		out = out[:len(out)-1]
	}
	vf.SetProcs([]int{1, 3, 8}[vf.Choose("processors", 3)])
	vf.Preempt(0)
	threads := int(vf.I64("threads"))
	vf.Assume(threads <= 3)
	var err error
	if vf.Choose("sparse", 2) == 1 {
		err = e.PredictCSR(indptr, idx, vals, out, 0, threads)
	} else {
		err = e.PredictDense(vals, rows, cols, out, 0, threads)
	}
	vf.Assert(!short || err != nil, "a short output is refused")
	vf.Assert(vf.Goroutines() == 0, "every goroutine of a batch ends")
	if rows == 33 && threads == 3 && err == nil {
		vf.Cover("three workers")
	}
}
