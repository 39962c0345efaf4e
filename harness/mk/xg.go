package mk

import (
	"bufio"
	"bytes"
	"math"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// U32 appends little-endian words.
func U32(b []byte, vs ...uint32) []byte {
	for _, v := range vs {
		b = append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
	return b
}

// U64 appends a little-endian word.
func U64(b []byte, v uint64) []byte {
	return U32(b, uint32(v), uint32(v>>32))
}

// Str appends a string with its length.
func Str(b []byte, s string) []byte {
	return append(U64(b, uint64(len(s))), s...)
}

// XNode is a node of an XGBoost tree.
type XNode struct {
	Parent, Left, Right int32
	SIndex              uint32
	Info                float32
}

// XTree is an XGBoost tree. A zero NumRoots counts as 1, a nil NumNodes as the number of nodes.
type XTree struct {
	Nodes      []XNode
	NumNodes   *int32
	NumRoots   int32
	NumFeature int32
	LeafVector []uint32 // not nil: leaf vector of this contents
	Stat       uint32
	NumDeleted int32
	Noise      func() uint32 // not nil: words without meaning
}

func words(b []byte, n int, noise func() uint32) []byte {
	for ; n > 0; n-- {
		if noise == nil {
			b = U32(b, 0)
		} else {
			b = U32(b, noise())
		}
	}
	return b
}

// XLeaf is a leaf.
func XLeaf(v float32) XNode { return XNode{Left: -1, Right: -1, Info: v} }

// XSplit is a split.
func XSplit(feature int, defLeft bool, cond float32, l, r int) XNode {
	s := uint32(feature)
	if defLeft {
		s |= 1 << 31
	}
	return XNode{Left: int32(l), Right: int32(r), SIndex: s, Info: cond}
}

// Bytes is the tree in the file.
func (t *XTree) Bytes(b []byte) []byte {
	n := int32(len(t.Nodes))
	if t.NumNodes != nil {
		n = *t.NumNodes
	}
	nr := t.NumRoots
	if nr == 0 {
		nr = 1
	}
	lv := uint32(0)
	if t.LeafVector != nil {
		lv = uint32(len(t.LeafVector))
	}
	b = U32(b, uint32(nr), uint32(n), uint32(t.NumDeleted))
	if t.Noise == nil {
		b = U32(b, 3)
	}
	b = words(b, b2i(t.Noise != nil), t.Noise)
	b = U32(b, uint32(t.NumFeature), lv)
	b = words(b, 31, t.Noise)
	for _, d := range t.Nodes {
		b = U32(b, uint32(d.Parent), uint32(d.Left), uint32(d.Right), d.SIndex, math.Float32bits(d.Info))
	}
	for range t.Nodes {
		if t.Noise != nil {
			b = words(b, 4, t.Noise)
			continue
		}
		b = U32(b, t.Stat, t.Stat+1, t.Stat^0x55, 3)
	}
	if lv > 0 {
		b = U64(b, uint64(lv))
		b = U32(b, t.LeafVector...)
	}
	return b
}

// XG is an XGBoost model. Zero fields take consistent defaults.
type XG struct {
	Base       float32
	Features   uint32
	NumClass   int32
	Obj, Gbm   string
	NumRoots   int32
	NumFeature int32 // of the booster
	Groups     int32
	Trees      []*XTree
	NumTrees   *int32
	Info       []int32
	Drop       []float32 // dart
	NoDrop     bool
	Weights    []float32 // gblinear
	Attrs      bool
	Noise      func() uint32 // not nil: words without meaning
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Header is the learner's part.
func (m *XG) Header() []byte {
	b := U32(nil, math.Float32bits(m.Base), m.Features, uint32(m.NumClass))
	b = words(b, 2+29, m.Noise)
	obj, gbm := m.Obj, m.Gbm
	if obj == "" {
		obj = "reg:linear"
	}
	if gbm == "" {
		gbm = "gbtree"
	}
	return Str(Str(b, obj), gbm)
}

// Bytes is the file.
func (m *XG) Bytes() []byte {
	b := m.Header()
	g := m.Groups
	if g == 0 {
		g = 1
	}
	if m.Gbm == "gblinear" {
		b = U32(b, uint32(m.NumFeature), uint32(g))
		b = words(b, 32, m.Noise)
		b = U64(b, uint64(len(m.Weights)))
		for _, w := range m.Weights {
			b = U32(b, math.Float32bits(w))
		}
		return b
	}
	nr := m.NumRoots
	if nr == 0 {
		nr = 1
	}
	nt := int32(len(m.Trees))
	if m.NumTrees != nil {
		nt = *m.NumTrees
	}
	b = U32(b, uint32(nt), uint32(nr), uint32(m.NumFeature))
	b = words(b, 3, m.Noise)
	b = U32(b, uint32(g), 0)
	b = words(b, 32, m.Noise)
	for _, t := range m.Trees {
		if m.Noise != nil {
			t.Noise = m.Noise
		}
		b = t.Bytes(b)
	}
	info := m.Info
	if info == nil {
		for i := range m.Trees {
			info = append(info, int32(i)%g)
		}
	}
	for _, i := range info {
		b = U32(b, uint32(i))
	}
	if m.Gbm == "dart" && !m.NoDrop {
		b = U64(b, uint64(len(m.Drop)))
		for _, w := range m.Drop {
			b = U32(b, math.Float32bits(w))
		}
	}
	return b
}

// LoadX reads an XGBoost model of the kind named by gbm.
func LoadX(b []byte, linear, trans bool) (*leaves.Ensemble, error) {
	r := bufio.NewReader(bytes.NewReader(b))
	if linear {
		return leaves.XGBLinearFromReader(r, trans)
	}
	return leaves.XGEnsembleFromReader(r, trans)
}

// Load reads the model.
func (m *XG) Load(trans bool) (*leaves.Ensemble, error) {
	return LoadX(m.Bytes(), m.Gbm == "gblinear", trans)
}

// MustLoad reads a model that has to be accepted.
func (m *XG) MustLoad(trans bool) *leaves.Ensemble {
	e, err := m.Load(trans)
	vf.Assert(err == nil && e != nil, "a well-formed XGBoost model is loaded")
	return e
}

// XStump is a tree with one split.
func XStump(feature int, defLeft bool, cond, l, r float32) *XTree {
	return &XTree{Nodes: []XNode{XSplit(feature, defLeft, cond, 1, 2), XLeaf(l), XLeaf(r)}}
}

// XFromShape numbers the nodes of a shape: order 0 is level order, 1 depth first, 2 with the leaves in front of the inner
// nodes, 3 reversed. It returns the numbers of the inner nodes and of the leaves by position.
func XFromShape(s Shape, order int) (inner, leaf []int) {
	n := len(s.Left) + 1
	inner, leaf = make([]int, n-1), make([]int, n)
	if n == 1 {
		return
	}
	var seq []int // children in order of numbers, root excluded
	queue := []int{0}
	for len(queue) > 0 {
		var d int
		if order == 1 {
			d = queue[len(queue)-1]
			queue = queue[:len(queue)-1]
		} else {
			d = queue[0]
			queue = queue[1:]
		}
		for _, c := range []int{s.Left[d], s.Right[d]} {
			seq = append(seq, c)
			if c >= 0 {
				queue = append(queue, c)
			}
		}
	}
	if order == 2 {
		var a, b []int
		for _, c := range seq {
			if c < 0 {
				a = append(a, c)
			} else {
				b = append(b, c)
			}
		}
		seq = append(a, b...)
	}
	for i, c := range seq {
		k := i + 1
		if order == 3 {
			k = len(seq) - i
		}
		if c < 0 {
			leaf[-1-c] = k
		} else {
			inner[c] = k
		}
	}
	return
}

// AnyName is a text of one of several lengths with arbitrary bytes at its beginning, in its middle and at its end.
func AnyName() string {
	n := []int{1, 15, 31, 32, 64, 255, 256, 1024, 4096, 5000, 65536, 70000}[vf.Choose("length of the name", 12)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	b[0], b[n/2], b[n-1] = vf.Byte("first"), vf.Byte("middle"), vf.Byte("last")
	return string(b)
}
