package mk

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

var missingNames = []string{"None", "Zero", "NaN", "Bad"}

func (t *Tree) jsonChild(tok string) string {
	c, err := strconv.Atoi(tok)
	if err != nil {
		panic(err)
	}
	if c < 0 {
		return "{\"leaf_index\":" + I(^c) + ",\"leaf_value\":" + t.Leaf[^c] + ",\"leaf_count\":" + rep("7", 1, t.Noise) + "}"
	}
	return t.jsonNode(c)
}

func (t *Tree) jsonNode(i int) string {
	dec, err := strconv.Atoi(t.Dec[i])
	if err != nil {
		panic(err)
	}
	thr, op := t.Thr[i], "<="
	if dec&1 > 0 {
		thr, op = "\""+t.CatList[i]+"\"", "=="
	}
	return "{\"split_index\":" + I(i) + ",\"split_feature\":" + t.Feature[i] + ",\"split_gain\":" + rep("1.5", 1, t.Noise) + ",\"threshold\":" + thr +
		",\"decision_type\":\"" + op + "\",\"default_left\":" + strconv.FormatBool(dec&2 > 0) +
		",\"missing_type\":\"" + missingNames[dec>>2&3] + "\",\"internal_value\":" + rep("0.25", 1, t.Noise) + ",\"internal_count\":" + rep("9", 1, t.Noise) + ",\"left_child\":" +
		t.jsonChild(t.Left[i]) + ",\"right_child\":" + t.jsonChild(t.Right[i]) + "}"
}

// JSON is the tree's entry in tree_info. The tokens of children and decision types are concrete.
func (t *Tree) JSON(i int) string {
	nl := t.NumLeaves
	if nl == "" {
		nl = I(len(t.Leaf))
	}
	root := "{\"leaf_value\":" + t.Leaf[0] + "}"
	if len(t.Left) > 0 {
		root = t.jsonNode(0)
	}
	return "{\"tree_index\":" + I(i) + ",\"num_leaves\":" + nl + ",\"num_cat\":" + I(t.NumCat) + ",\"shrinkage\":" + rep("0.1", 1, t.Noise) + ",\"tree_structure\":" + root + "}"
}

// JSON is the model's dump.
func (m *LG) JSON() string {
	nc, pi := m.classes()
	var ts []string
	for i, t := range m.Trees {
		t.Noise = m.Noise
		ts = append(ts, t.JSON(i))
	}
	v := m.Version
	if v == "" {
		v = "v2"
	}
	return "{\"name\":\"tree\",\"version\":\"" + v + "\",\"num_class\":" + I(nc) + ",\"num_tree_per_iteration\":" + I(pi) +
		",\"label_index\":0,\"max_feature_idx\":" + m.maxTok() + ",\"feature_names\":[\"a\",\"b\"],\"tree_info\":[" +
		strings.Join(ts, ",") + "]}\n"
}

// MustLoadJSON reads a dump that has to be accepted.
func (m *LG) MustLoadJSON() *leaves.Ensemble {
	e, err := leaves.LGEnsembleFromJSON(bytes.NewReader([]byte(m.JSON())), false)
	vf.Assert(err == nil && e != nil, "a well-formed LightGBM JSON dump is loaded")
	return e
}
