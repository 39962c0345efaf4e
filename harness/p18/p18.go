package p18

import (
	"bytes"
	"io"

	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

func number() float32 { return vf.F32("number") }

// cut reads a model file of which only the first bytes arrive.
func cut(f mk.FileOf, at int) {
	s := &mk.Stream{Data: f.Bytes[:at], Err: io.EOF}
	switch vf.Choose("end", 3) {
	case 1:
		s.Err = mk.ErrRead
	case 2:
		s.Err, s.WithData = mk.ErrRead, true
	}
	e, err := mk.LoadFrom(f.Kind, s, 0, f.Trans)
	vf.Assert(err != nil && e == nil, "a model that ends early is not loaded")
}

func file(i int) mk.FileOf { return mk.Files[i](number) }

func all(i int) {
	f := file(i)
	end := f.Complete
	if f.Kind == mk.KindLG {
		end = f.LastTree()
	}
	cut(f, vf.Choose("cut", end))
}

// HText : a LightGBM text cut at every byte before its last tree.
func HText() { all(0) }

// HTextTrans : the same with a transformation and a constant last tree.
func HTextTrans() { all(1) }

// HTextTail : a cut within the last tree, at every byte: no panic, neither on loading nor on prediction.
func HTextTail() {
	f := file(vf.Choose("file", 2))
	at := f.LastTree()
	at += vf.Choose("cut", f.Complete-at)
	s := &mk.Stream{Data: f.Bytes[:at], Err: io.EOF}
	e, err := mk.LoadFrom(f.Kind, s, 0, f.Trans)
	vf.Assert((err == nil) == (e != nil), "either a model or an error")
	if err == nil {
		row := []float64{vf.F64("x"), vf.F64("y"), vf.F64("z")}
		vf.Assert(e.Predict(row, 0, make([]float64, e.NOutputGroups())) == nil, "a model that is loaded can be used")
	}
}

// HJSON : a LightGBM JSON dump cut at every byte.
func HJSON() { all(2) }

// HTree, HDart, HLinear : XGBoost models with arbitrary numbers cut at every byte.
func HTree() { all(3) }

// HDart : a dart model.
func HDart() { all(4) }

// HLinear : a linear model.
func HLinear() { all(5) }

// HSklearn : a scikit-learn pickle cut at every byte.
func HSklearn() { all(6) }

// HTreeOne : a gbtree model of one class.
func HTreeOne() { all(7) }

// HFile : files of every kind cut at some bytes, and no file at all.
func HFile() {
	i := vf.Choose("file", len(mk.Files))
	f := file(i)
	vf.Assume(f.Kind != mk.KindJSON)
	if vf.Choose("missing", 2) == 1 {
		_, err := mk.LoadPath(f.Kind, vf.TempName("none"), f.Trans)
		vf.Assert(err != nil, "a file that cannot be opened is an error")
		return
	}
	end := f.Complete
	if f.Kind == mk.KindLG {
		end = f.LastTree()
	}
	at := end * vf.Choose("cut/8", 8) / 8
	if vf.Choose("last", 2) == 1 {
		at = end - 1
	}
	e, err := mk.LoadPath(f.Kind, vf.TempFile("model", f.Bytes[:at]), f.Trans)
	vf.Assert(err != nil && e == nil, "a file that ends early is not loaded")
}

// HWhole : the same files load when complete (the cuts are what makes the others fail).
func HWhole() {
	f := file(vf.Choose("file", len(mk.Files)))
	_, err := mk.LoadFrom(f.Kind, bytes.NewReader(f.Bytes), 0, f.Trans)
	vf.Assert(err == nil, "the complete file is loaded")
}
