package mk

import (
	"bufio"
	"bytes"
	"math"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// Pk writes a protocol 0 pickle.
type Pk struct {
	B    []byte
	memo int
	Memo bool // store every object in the memo, as Python does
}

// S appends opcodes.
func (p *Pk) S(s string) *Pk { p.B = append(p.B, s...); return p }

func (p *Pk) put() {
	if p.Memo {
		p.S("p" + I(p.memo) + "\n")
		p.memo++
	}
}

// Int is an int.
func (p *Pk) Int(v int) *Pk { return p.S("I" + vf.IntTok(int64(v)) + "\n") }

// Global names a class.
func (p *Pk) Global(mod, name string) *Pk { p.S("c" + mod + "\n" + name + "\n"); p.put(); return p }

// Esc is a string as UNICODE writes it.
func Esc(b []byte) []byte {
	var r []byte
	for _, c := range b {
		if c == '\n' {
			r = append(r, "\\u000a"...)
		} else if c == '\\' {
			r = append(r, "\\u005c"...)
		} else {
			r = append(r, c)
		}
	}
	return r
}

// Uni is a string.
func (p *Pk) Uni(s []byte) *Pk {
	p.B = append(p.B, 'V')
	p.B = append(p.B, Esc(s)...)
	p.B = append(p.B, '\n')
	p.put()
	return p
}

// Str is a string without special characters.
func (p *Pk) Str(s string) *Pk { p.S("V" + s + "\n"); p.put(); return p }

// Tuple closes a tuple.
func (p *Pk) Tuple() *Pk { p.S("t"); p.put(); return p }

// Red closes an argument tuple and calls.
func (p *Pk) Red() *Pk { p.Tuple().S("R"); p.put(); return p }

// Dict opens a dictionary.
func (p *Pk) Dict() *Pk { p.S("(d"); p.put(); return p }

// DType is a numpy dtype.
func (p *Pk) DType(typ string, big bool) *Pk {
	o := "<"
	if big {
		o = ">"
	}
	p.Global("numpy", "dtype").S("(").Str(typ).Int(0).Int(1).Red()
	p.S("(").Int(3).Str(o).S("NNN").Int(-1).Int(-1).Int(0)
	return p.Tuple().S("b")
}

// Raw are the bytes of an array.
func (p *Pk) Raw(b []byte) *Pk {
	return p.Global("_codecs", "encode").S("(").Uni(b).Str("latin1").Red()
}

// ArrayHead is an array up to its data.
func (p *Pk) ArrayHead(typ string, big bool, shape ...int) *Pk {
	p.Global("numpy.core.multiarray", "_reconstruct").S("(").Global("numpy", "ndarray").S("(").Int(0).Tuple().Str("b").Red()
	p.S("(").Int(1).S("(")
	for _, d := range shape {
		p.S("L" + vf.IntTok(int64(d)) + "L\n")
	}
	return p.Tuple().DType(typ, big).S("I00\n")
}

// Array is an array of raw bytes.
func (p *Pk) Array(typ string, big bool, data []byte, shape ...int) *Pk {
	return p.ArrayHead(typ, big, shape...).Raw(data).Tuple().S("b")
}

// Scalar is a numpy scalar.
func (p *Pk) Scalar(typ string, big bool, data []byte) *Pk {
	return p.Global("numpy.core.multiarray", "scalar").S("(").DType(typ, big).Raw(data).Red()
}

// Object opens a Python object's state.
func (p *Pk) Object(mod, name string) *Pk {
	return p.Global("copy_reg", "_reconstructor").S("(").Global(mod, name).Global("__builtin__", "object").S("N").Red().Dict()
}

// End closes an object's state.
func (p *Pk) End() *Pk { return p.S("b") }

// Key starts an entry.
func (p *Pk) Key(k string) *Pk { return p.Str(k) }

// Set ends an entry.
func (p *Pk) Set() *Pk { return p.S("s") }

// F64s are the bytes of doubles.
func F64s(big bool, vs ...float64) []byte {
	var b []byte
	for _, v := range vs {
		u := math.Float64bits(v)
		if big {
			for s := 56; s >= 0; s -= 8 {
				b = append(b, byte(u>>uint(s)))
			}
		} else {
			b = U64(b, u)
		}
	}
	return b
}

// I64s are the bytes of little-endian integers.
func I64s(vs ...int) []byte {
	var b []byte
	for _, v := range vs {
		b = U64(b, uint64(v))
	}
	return b
}

// SKNode is a node of a scikit-learn tree.
type SKNode struct {
	Left, Right, Feature int
	Thr                  float64
}

// SKTree is a scikit-learn tree.
type SKTree struct {
	Nodes  []SKNode
	Values []float64
	Count  *int // node_count
	NFeat  *int // number of features, if not the model's
}

// SK is a GradientBoostingClassifier. Zero fields take consistent defaults.
type SK struct {
	Classes     int
	Features    int
	MaxFeatures int
	Iters       int
	Rate        string
	Prior       []float64
	Init        string
	Trees       []*SKTree
	Big         bool // doubles big endian
	Memo        bool
	Shape       []int
	Fortran     bool // the array of trees in column-major order
	Estimators  *int
	// declared values that may contradict the rest
	NClasses, ClassesLen, Outputs, OutputsLen *int
	Class, TreeClass                          string
}

func or(p *int, v int) int {
	if p != nil {
		return *p
	}
	return v
}

func name(s, def string) string {
	if s == "" {
		return def
	}
	return s
}

// SKLeaf is a leaf.
func SKLeaf() SKNode { return SKNode{-1, -1, -2, -2} }

// SKStump has one split.
func SKStump(f int, thr, l, r float64) *SKTree {
	return &SKTree{Nodes: []SKNode{{1, 2, f, thr}, SKLeaf(), SKLeaf()}, Values: []float64{0.5, l, r}}
}

func (t *SKTree) node(p *Pk, m *SK) {
	p.Object("sklearn.tree.tree", name(m.TreeClass, "DecisionTreeRegressor"))
	p.Key("max_depth").Int(3).Set()
	p.Key("n_classes_").Scalar("i8", false, I64s(1)).Set()
	p.Key("max_features_").Int(m.maxFeatures()).Set()
	p.Key("n_outputs_").Int(1).Set()
	p.Key("tree_").Global("sklearn.tree._tree", "Tree").S("(").Int(or(t.NFeat, m.Features)).Array("i8", false, I64s(1), or(m.OutputsLen, 1)).Int(or(m.Outputs, 1)).Red().Dict()
	n := or(t.Count, len(t.Nodes))
	p.Key("max_depth").Int(3).Set()
	p.Key("node_count").Int(n).Set()
	var b []byte
	for i, d := range t.Nodes {
		b = append(b, I64s(d.Left, d.Right, d.Feature)...)
		b = append(b, F64s(false, d.Thr, 0.25)...)
		b = append(b, I64s(5+i)...)
		b = append(b, F64s(false, 5.5)...)
	}
	p.Key("nodes").Array("V56", false, b, len(t.Nodes)).Set()
	p.Key("values").Array("f8", m.Big, F64s(m.Big, t.Values...), len(t.Values), 1, 1).Set()
	p.End().Set() // tree_
	p.End()
}

func (m *SK) maxFeatures() int {
	if m.MaxFeatures != 0 {
		return m.MaxFeatures
	}
	return m.Features
}

// Groups is the number of raw scores.
func (m *SK) Groups() int {
	if m.Classes == 2 {
		return 1
	}
	return m.Classes
}

// Bytes is the pickle.
func (m *SK) Bytes() []byte {
	p := &Pk{Memo: m.Memo}
	iters := m.Iters
	if iters == 0 {
		iters = len(m.Trees) / m.Groups()
	}
	ne := or(m.Estimators, iters)
	rate := m.Rate
	if rate == "" {
		rate = "0.5"
	}
	p.Object("sklearn.ensemble.gradient_boosting", name(m.Class, "GradientBoostingClassifier"))
	p.Key("n_classes_").Int(or(m.NClasses, m.Classes)).Set()
	p.Key("learning_rate").S("F" + rate + "\n").Set()
	p.Key("loss").Str("deviance").Set()
	p.Key("verbose").Int(0).Set()
	init := m.Init
	if init == "" {
		init = "LogOddsEstimator"
		if m.Classes != 2 {
			init = "PriorProbabilityEstimator"
		}
	}
	p.Key("init_").Object("sklearn.ensemble.gradient_boosting", init)
	if init == "LogOddsEstimator" {
		p.Key("prior").Scalar("f8", m.Big, F64s(m.Big, m.Prior...)).Set()
	} else {
		p.Key("priors").Array("f8", m.Big, F64s(m.Big, m.Prior...), len(m.Prior)).Set()
	}
	p.End().Set()
	var cl []int
	for i := 0; i < m.Classes; i++ {
		cl = append(cl, i)
	}
	p.Key("classes_").Array("i8", false, I64s(cl...), or(m.ClassesLen, m.Classes)).Set()
	p.Key("max_features_").Int(m.maxFeatures()).Set()
	p.Key("n_estimators").Int(ne).Set()
	shape := m.Shape
	if shape == nil {
		shape = []int{iters, m.Groups()}
	}
	trees := m.Trees
	p.Key("estimators_").ArrayHead("O8", false, shape...)
	if m.Fortran {
		p.B = append(p.B[:len(p.B)-len("I00\n")], "I01\n"...)
		trees = nil
		for k := 0; k < m.Groups(); k++ {
			for i := 0; i < iters; i++ {
				trees = append(trees, m.Trees[i*m.Groups()+k])
			}
		}
	}
	p.S("(l")
	p.put()
	for _, t := range trees {
		t.node(p, m)
		p.S("a")
	}
	p.Tuple().S("b").Set()
	p.Key("presort").S("Vauto\n").Set()
	return p.End().S(".").B
}

// LoadSK reads a pickle.
func LoadSK(b []byte) (*leaves.Ensemble, error) {
	return leaves.SKEnsembleFromReader(bufio.NewReader(bytes.NewReader(b)), false)
}

// MustLoad reads a model that has to be accepted.
func (m *SK) MustLoad() *leaves.Ensemble {
	e, err := LoadSK(m.Bytes())
	vf.Assert(err == nil && e != nil, "a well-formed scikit-learn model is loaded")
	return e
}

// SKFromShape numbers a shape in depth first order, the root 0; features and thresholds by inner node, leaf values by position.
func SKFromShape(s Shape, feature func(i int) int, thr func(i int) float64, val func(p int) float64) *SKTree {
	t := &SKTree{}
	if len(s.Left) == 0 {
		return &SKTree{Nodes: []SKNode{SKLeaf()}, Values: []float64{val(0)}}
	}
	type todo struct {
		node, parent int
		right        bool
	}
	stack := []todo{{0, -1, false}}
	for len(stack) > 0 {
		d := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		k := len(t.Nodes)
		if d.parent >= 0 {
			if d.right {
				t.Nodes[d.parent].Right = k
			} else {
				t.Nodes[d.parent].Left = k
			}
		}
		if d.node < 0 {
			t.Nodes = append(t.Nodes, SKLeaf())
			t.Values = append(t.Values, val(-1-d.node))
			continue
		}
		t.Nodes = append(t.Nodes, SKNode{0, 0, feature(d.node), thr(d.node)})
		t.Values = append(t.Values, -99)
		stack = append(stack, todo{s.Right[d.node], k, true}, todo{s.Left[d.node], k, false})
	}
	return t
}
