package mk

import (
	"bufio"
	"bytes"
	"errors"
	"io"

	"github.com/dmitryikh/leaves"
)

// ErrRead is a failure to read.
var ErrRead = errors.New("read failure")

// Stream is a reader that delivers its data in pieces.
type Stream struct {
	Data []byte
	Err  error // at the end
	// WithData delivers the error together with the last piece.
	WithData bool
	// Idle precedes every piece by a read of no bytes.
	Idle bool
	// Size is the length of the next piece at a position; nil for as many as asked for.
	Size func(pos int) int
	pos  int
	idle bool
}

func (s *Stream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos == len(s.Data) {
		return 0, s.Err
	}
	if s.Idle && !s.idle {
		s.idle = true
		return 0, nil
	}
	s.idle = false
	n := len(s.Data) - s.pos
	if s.Size != nil {
		if k := s.Size(s.pos); k < n {
			n = k
		}
	}
	if len(p) < n {
		n = len(p)
	}
	copy(p, s.Data[s.pos:s.pos+n])
	s.pos += n
	if s.WithData && s.pos == len(s.Data) {
		return n, s.Err
	}
	return n, nil
}

// Kinds of model files.
const (
	KindLG = iota
	KindJSON
	KindXG
	KindLinear
	KindSK
)

// Buffered is a buffer in front of r. size 0 is the default.
func Buffered(r io.Reader, size int) *bufio.Reader {
	if size > 0 {
		return bufio.NewReaderSize(r, size)
	}
	return bufio.NewReader(r)
}

// LoadFrom reads a model of some kind. size is the size of the buffer.
func LoadFrom(kind int, r io.Reader, size int, trans bool) (*leaves.Ensemble, error) {
	if kind == KindJSON {
		return leaves.LGEnsembleFromJSON(r, trans)
	}
	return LoadBuffered(kind, Buffered(r, size), trans)
}

// LoadBuffered reads a model of some kind other than JSON.
func LoadBuffered(kind int, b *bufio.Reader, trans bool) (*leaves.Ensemble, error) {
	switch kind {
	case KindLG:
		return leaves.LGEnsembleFromReader(b, trans)
	case KindXG:
		return leaves.XGEnsembleFromReader(b, trans)
	case KindLinear:
		return leaves.XGBLinearFromReader(b, trans)
	}
	return leaves.SKEnsembleFromReader(b, trans)
}

// FileOf is a model file.
type FileOf struct {
	Name  string
	Kind  int
	Trans bool
	Bytes []byte
	// Complete is where the data of the model end. A LightGBM text may end at any place of its last tree.
	Complete int
	Features int
}

// Float is any float32.
type Float func() float32

// Files are the model files that the checks of streams use; f makes the numbers of those whose layout does not depend on them.
var Files = []func(f Float) FileOf{
	func(f Float) FileOf {
		return text("lightgbm", false, &LG{MaxFeature: 2, Trees: []*Tree{lgZooTree(0), lgZooTree(1)}})
	},
	func(f Float) FileOf {
		return text("lightgbm multiclass", true, &LG{NumClass: 2, MaxFeature: 2, Objective: "multiclass num_class:2", Trees: []*Tree{lgZooTree(1), {Leaf: Fs(0.5)}}})
	},
	func(f Float) FileOf {
		b := []byte((&LG{NumClass: 2, MaxFeature: 2, Trees: []*Tree{lgZooTree(0), lgZooTree(1)}}).JSON())
		return FileOf{"lightgbm json", KindJSON, false, b, len(b) - 1, 3}
	},
	func(f Float) FileOf {
		m := &XG{Features: 3, Base: f(), Groups: 2, Trees: []*XTree{XStump(1, true, f(), f(), f()), {Nodes: []XNode{XLeaf(f())}, LeafVector: []uint32{5, 6}}}}
		return binary("xgboost gbtree", KindXG, m)
	},
	func(f Float) FileOf {
		m := &XG{Features: 3, Base: f(), Gbm: "dart", Obj: "binary:logistic", Drop: []float32{f(), f()}, Trees: []*XTree{XStump(1, true, f(), f(), f()), XStump(0, false, 1, 2, f())}}
		return binary("xgboost dart", KindXG, m)
	},
	func(f Float) FileOf {
		m := &XG{Features: 3, NumFeature: 3, Groups: 2, Base: 0.5, Gbm: "gblinear", Weights: []float32{f(), -2, 0.5, f(), -0.25, 4, f(), -1}}
		return binary("xgboost gblinear", KindLinear, m)
	},
	func(f Float) FileOf {
		b := (&SK{Classes: 2, Features: 3, Prior: []float64{0.5}, Trees: []*SKTree{SKStump(1, 0.5, 2, -1)}}).Bytes()
		return FileOf{"scikit-learn", KindSK, false, b, len(b), 3}
	},
	func(f Float) FileOf {
		m := &XG{Features: 3, Base: 0.5, Trees: []*XTree{{Nodes: []XNode{XLeaf(f())}}, XStump(2, true, f(), 3, 4)}}
		return binary("xgboost gbtree of one class", KindXG, m)
	},
}

func text(name string, trans bool, m *LG) FileOf {
	t := m.Text()
	end := bytes.Index([]byte(t), []byte("\nend of trees"))
	return FileOf{name, KindLG, trans, []byte(t[:end]), end, m.MaxFeature + 1}
}

// LastTree is where the last tree of a LightGBM text starts.
func (f FileOf) LastTree() int { return bytes.LastIndex(f.Bytes, []byte("Tree=")) }

func binary(name string, kind int, m *XG) FileOf {
	b := m.Bytes()
	return FileOf{name, kind, m.Obj != "", b, len(b), 3}
}

// LoadPath reads a model of some kind from a file.
func LoadPath(kind int, name string, trans bool) (*leaves.Ensemble, error) {
	switch kind {
	case KindLG:
		return leaves.LGEnsembleFromFile(name, trans)
	case KindXG:
		return leaves.XGEnsembleFromFile(name, trans)
	case KindLinear:
		return leaves.XGBLinearFromFile(name, trans)
	}
	return leaves.SKEnsembleFromFile(name, trans)
}

// EOF is io.EOF.
var EOF = io.EOF
