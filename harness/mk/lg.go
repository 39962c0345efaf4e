// Package mk builds model files in the formats that leaves reads.
package mk

import (
	"bufio"
	"bytes"
	"math"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// Tree is a LightGBM tree. Children are node numbers, or ^leaf.
type Tree struct {
	Left, Right []string
	Feature     []string
	Dec         []string
	Thr         []string
	Leaf        []string
	CatBound    []string
	CatThr      []string
	NumCat      int
	NumLeaves   string   // if set
	CatList     []string // by node, for JSON
	Noise       func() string
}

// I is a decimal literal of a concrete int.
func I(v int) string { return strconv.Itoa(v) }

// F is a decimal literal of a concrete float.
func F(v float64) string { return strconv.FormatFloat(v, 'g', 17, 64) }

// Is are literals of ints.
func Is(v ...int) []string {
	r := make([]string, len(v))
	for i, x := range v {
		r[i] = I(x)
	}
	return r
}

// Fs are literals of floats.
func Fs(v ...float64) []string {
	r := make([]string, len(v))
	for i, x := range v {
		r[i] = F(x)
	}
	return r
}

// Finite says that f is neither NaN nor infinite.
func Finite(f float64) bool { return f-f == 0 }

// FiniteTok is a literal that reads back as f; f is assumed to be finite.
func FiniteTok(f float64) string {
	vf.Assume(!math.IsNaN(f) && !math.IsInf(f, 0))
	return vf.FloatTok(f)
}

func rep(s string, n int, noise func() string) string {
	r := make([]string, n)
	for i := range r {
		r[i] = s
		if noise != nil {
			r[i] = noise()
		}
	}
	return strings.Join(r, " ")
}

// Text is the section of the tree.
func (t *Tree) Text(i int) string {
	nl := t.NumLeaves
	if nl == "" {
		nl = I(len(t.Leaf))
	}
	s := "Tree=" + I(i) + "\nnum_leaves=" + nl + "\nnum_cat=" + I(t.NumCat) + "\n"
	n := len(t.Left)
	if n > 0 || t.NumLeaves != "" {
		s += "split_feature=" + strings.Join(t.Feature, " ") + "\n"
		s += "split_gain=" + rep("1.5", n, t.Noise) + "\n"
		s += "threshold=" + strings.Join(t.Thr, " ") + "\n"
		s += "decision_type=" + strings.Join(t.Dec, " ") + "\n"
		s += "left_child=" + strings.Join(t.Left, " ") + "\n"
		s += "right_child=" + strings.Join(t.Right, " ") + "\n"
	}
	s += "leaf_value=" + strings.Join(t.Leaf, " ") + "\n"
	if n > 0 {
		s += "leaf_count=" + rep("7", len(t.Leaf), t.Noise) + "\n"
		s += "internal_value=" + rep("0.25", n, t.Noise) + "\n"
		s += "internal_count=" + rep("9", n, t.Noise) + "\n"
	}
	if t.NumCat > 0 {
		s += "cat_boundaries=" + strings.Join(t.CatBound, " ") + "\n"
		s += "cat_threshold=" + strings.Join(t.CatThr, " ") + "\n"
	}
	if t.Noise != nil {
		s += "leaf_weight=" + rep("", len(t.Leaf), t.Noise) + "\nis_linear=0\ninternal_weight=" + rep("", n, t.Noise) + "\n"
	}
	return s + "shrinkage=" + rep("0.1", 1, t.Noise) + "\n\n\n"
}

// LG is a LightGBM text model.
type LG struct {
	Version    string
	NumClass   int
	PerIter    int
	MaxFeature int
	MaxTok     string // if set, instead
	Objective  string
	Avg        bool
	Trees      []*Tree
	NoSizes    bool
	Noise      func() string // not nil: numbers without meaning
}

// Header is the first section.
func (m *LG) Header() string {
	v := m.Version
	if v == "" {
		v = "v3"
	}
	nc, pi := m.classes()
	s := "tree\nversion=" + v + "\nnum_class=" + I(nc) + "\nnum_tree_per_iteration=" + I(pi) + "\nlabel_index=0\nmax_feature_idx=" + m.maxTok() + "\n"
	o := m.Objective
	if o == "" {
		o = "regression"
	}
	s += "objective=" + o + "\n"
	if m.Avg {
		s += "average_output\n"
	}
	s += "feature_names=a b\nfeature_infos=[0:1] [0:1]\n"
	sz := make([]string, len(m.Trees))
	for i, t := range m.Trees {
		t.Noise = nil
		sz[i] = I(len(t.Text(i)) - 1)
	}
	if !m.NoSizes {
		s += "tree_sizes=" + strings.Join(sz, " ") + "\n"
	}
	return s + "\n"
}

// Text is the model file.
func (m *LG) Text() string {
	s := m.Header()
	for i, t := range m.Trees {
		t.Noise = m.Noise
		s += t.Text(i)
	}
	return s + "end of trees\n\nfeature importances:\na=1\n"
}

// Load reads the model.
func (m *LG) Load(trans bool) (*leaves.Ensemble, error) {
	return leaves.LGEnsembleFromReader(bufio.NewReader(bytes.NewReader([]byte(m.Text()))), trans)
}

// MustLoad reads a model that has to be accepted.
func (m *LG) MustLoad(trans bool) *leaves.Ensemble {
	e, err := m.Load(trans)
	vf.Assert(err == nil && e != nil, "a well-formed LightGBM model is loaded")
	return e
}

// Predict runs one prediction of a model with one output.
func Predict(e *leaves.Ensemble, fvals []float64) float64 {
	out := []float64{-12345}
	err := e.Predict(fvals, 0, out)
	vf.Assert(err == nil, "Predict accepts a row of the model's width")
	return out[0]
}

func (m *LG) classes() (int, int) {
	nc := m.NumClass
	if nc == 0 {
		nc = 1
	}
	pi := m.PerIter
	if pi == 0 {
		pi = nc
	}
	return nc, pi
}

func (m *LG) maxTok() string {
	if m.MaxTok != "" {
		return m.MaxTok
	}
	return I(m.MaxFeature)
}
