package p21

import (
	"bufio"
	"bytes"
	"strings"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/internal/pickle"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// usable checks the outcome of loading a damaged model: an error, or a model that can be used.
func usable(e *leaves.Ensemble, err error) {
	vf.Assert((err == nil) == (e != nil), "either a model or an error")
	if err != nil {
		return
	}
	n := e.NFeatures()
	vf.Assert(n >= 0 && e.NOutputGroups() >= 1 && e.NEstimators() >= 1, "a model that is loaded reports possible dimensions")
	if n > 4 {
		return // no rows of this width
	}
	vf.Cover("usable")
	row := make([]float64, n)
	for i := range row {
		row[i] = vf.F64("x")
	}
	out := make([]float64, e.NOutputGroups())
	vf.Assert(e.Predict(row, 0, out) == nil, "a model that is loaded can be used")
	vf.Assert(e.PredictCSR([]int{0, 0}, []int{}, []float64{}, out, 0, 1) == nil, "a model that is loaded can be used with sparse rows")
	if strings.HasPrefix(e.Name(), "xgboost.gblinear") {
		return
	}
	v := e.EnsembleWithLeafPredictions()
	out = make([]float64, v.NOutputGroups())
	vf.Assert(v.Predict(row, 0, out) == nil, "the leaves of a model that is loaded can be asked for")
}

func anyInt(label string) string { return vf.IntTok(vf.I64(label)) }
func any32(label string) string  { return vf.IntTok(int64(vf.I32(label))) }
func anyU(label string) string   { return vf.IntTok(int64(vf.U32(label))) }
func anyF(label string) string   { return mk.FiniteTok(vf.F64(label)) }

func loadLG(trees ...*mk.Tree) { usable((&mk.LG{MaxFeature: 2, Trees: trees}).Load(false)) }

// numerical is a tree of n-1 nodes and n leaves without categories.
func numerical(n int) *mk.Tree {
	s := mk.Chain(n)
	t := &mk.Tree{}
	for i := 0; i < n-1; i++ {
		t.Left, t.Right = append(t.Left, mk.I(s.Left[i])), append(t.Right, mk.I(s.Right[i]))
		t.Feature, t.Dec, t.Thr = append(t.Feature, mk.I(i%3)), append(t.Dec, "2"), append(t.Thr, mk.F(float64(i)))
	}
	for i := 0; i < n; i++ {
		t.Leaf = append(t.Leaf, mk.F(float64(i)))
	}
	return t
}

// HTextChildren : any child references in trees of 2 and 3 leaves, 4 in thorough runs.
func HTextChildren() {
	n := 2 + vf.Choose("leaves-2", 2+vf.Tier())
	t := numerical(n)
	for i := range t.Left {
		t.Left[i], t.Right[i] = any32("left"), any32("right")
	}
	loadLG(t)
}

// HTextFeatures : any features and decision types.
func HTextFeatures() {
	t := numerical(3)
	for i := range t.Left {
		t.Feature[i], t.Dec[i] = anyU("feature"), anyU("decision type")
		t.Thr[i] = "0"
	}
	t.NumCat, t.CatBound, t.CatThr = 1, mk.Is(0, 1), mk.Is(5)
	loadLG(t)
}

// HTextCategories : any category index, boundaries and bits; arrays of any length up to 3.
func HTextCategories() {
	t := numerical(2)
	t.Dec[0], t.Thr[0] = "1", anyF("index")
	t.NumCat = 1
	for i := vf.Choose("boundaries", 4); i > 0; i-- {
		t.CatBound = append(t.CatBound, anyU("boundary"))
	}
	for i := vf.Choose("words", 4); i > 0; i-- {
		t.CatThr = append(t.CatThr, anyU("bits"))
	}
	if len(t.CatBound) == 3 {
		vf.Cover("boundaries")
	}
	loadLG(t)
}

// HTextCounts : any declared numbers of leaves, categories and features.
func HTextCounts() {
	t := numerical(3)
	if vf.Choose("constant", 2) == 1 {
		t = &mk.Tree{Leaf: mk.Fs(1)}
	} else if vf.Choose("categorical", 2) == 1 {
		t.Dec[1] = "1"
		t.Thr[1] = "0"
	}
	m := &mk.LG{MaxFeature: 2, Trees: []*mk.Tree{t}}
	s := m.Text()
	v := anyInt("number")
	switch vf.Choose("field", 3) {
	case 0:
		s = strings.Replace(s, "num_leaves="+mk.I(len(t.Leaf)), "num_leaves="+v, 1)
	case 1:
		s = strings.Replace(s, "num_cat=0", "num_cat="+v, 1)
	case 2:
		s = strings.Replace(s, "max_feature_idx=2", "max_feature_idx="+v, 1)
	}
	usable(leaves.LGEnsembleFromReader(bufio.NewReader(bytes.NewReader([]byte(s))), false))
}

// HTextLengths : each array of a tree with 0..4 elements instead of 2 or 3.
func HTextLengths() {
	t := numerical(3)
	t.NumCat, t.CatBound, t.CatThr = 1, mk.Is(0, 2), mk.Is(5, 6)
	t.Dec[1] = "1"
	t.Thr[1] = "0"
	as := []*[]string{&t.Left, &t.Right, &t.Feature, &t.Dec, &t.Thr, &t.Leaf, &t.CatBound, &t.CatThr}
	a := as[vf.Choose("array", len(as))]
	n := vf.Choose("length", 5)
	for len(*a) < n {
		*a = append(*a, "0")
	}
	*a = (*a)[:n]
	t.NumLeaves = "3"
	loadLG(t)
}

// HTextElements : any character (two in thorough runs), alone or in front of a digit, as an element of an array.
func HTextElements() {
	t := numerical(3)
	t.NumCat, t.CatBound, t.CatThr = 1, mk.Is(0, 2), mk.Is(5, 6)
	t.Dec[1] = "1"
	t.Thr[1] = "0"
	as := []*[]string{&t.Left, &t.Right, &t.Feature, &t.Dec, &t.Thr, &t.Leaf, &t.CatBound, &t.CatThr}
	a := *as[vf.Choose("array", len(as))]
	b := []byte{vf.Byte("a")}
	if vf.Tier() == 1 {
		b = append(b, vf.Byte("b"))
	}
	if vf.Choose("digit", 2) == 1 {
		b = append(b, '7')
	}
	a[1] = string(b)
	loadLG(t)
}

func loadJSON(s string) { usable(leaves.LGEnsembleFromJSON(bytes.NewReader([]byte(s)), false)) }

const jsonHead = "{\"name\":\"tree\",\"version\":\"v2\",\"num_class\":1,\"num_tree_per_iteration\":1,\"max_feature_idx\":2,\"tree_info\":["

// HJSONKinds : a value of another kind, or none, in place of any one value of a dump.
func HJSONKinds() {
	values := []string{"null", "5", "-1", "1.5", "\"x\"", "\"1||40\"", "[]", "{}", "true", "{\"leaf_value\":3}", "[1,2]", "\"\"", "1e300"}
	v := values[vf.Choose("value", len(values))]
	head := []string{"\"name\":\"tree\"", "\"version\":\"v2\"", "\"num_class\":1", "\"num_tree_per_iteration\":1", "\"max_feature_idx\":2"}
	tree := []string{"\"num_leaves\":3", "\"num_cat\":1", "\"shrinkage\":1"}
	node := []string{"\"split_index\":0", "\"split_feature\":1", "\"threshold\":0.5", "\"decision_type\":\"<=\"", "\"default_left\":true", "\"missing_type\":\"None\"",
		"\"left_child\":{\"leaf_index\":0,\"leaf_value\":1}"}
	cat := []string{"\"split_index\":1", "\"split_feature\":2", "\"threshold\":\"1||35\"", "\"decision_type\":\"==\"", "\"default_left\":false", "\"missing_type\":\"NaN\"",
		"\"left_child\":{\"leaf_index\":1,\"leaf_value\":1}", "\"right_child\":{\"leaf_index\":2,\"leaf_value\":7}"}
	lists := [][]string{head, tree, node, cat}
	at := vf.Choose("at", len(head)+len(tree)+len(node)+len(cat)+5)
	for _, l := range lists {
		if at < len(l) && at >= 0 {
			l[at] = l[at][:strings.Index(l[at], ":")+1] + v
		}
		at -= len(l)
	}
	put := func(i int, key, def string) string {
		if at == i {
			def = v
		}
		return "\"" + key + "\":" + def
	}
	s := put(0, "right_child", "{"+strings.Join(cat, ",")+"}")
	s = put(1, "tree_structure", "{"+strings.Join(append(node, s), ",")+"}")
	s = "{" + strings.Join(append(tree, s), ",") + "}"
	if at == 2 {
		s = v
	}
	s = put(3, "tree_info", "["+s+"]")
	s = "{" + strings.Join(append(head, s), ",") + "}"
	if at == 4 {
		s = v
	}
	loadJSON(s)
}

// HJSONNumbers : any numbers.
func HJSONNumbers() {
	f := []string{"1", "2", "3", "1", "0"}
	k := vf.Choose("field", 5)
	f[k] = anyInt("number")
	if k == 4 {
		f[k] = any32("leaf")
	}
	s := "{\"split_index\":" + f[0] + ",\"split_feature\":" + f[1] + ",\"threshold\":\"1||35\",\"decision_type\":\"==\",\"default_left\":true,\"missing_type\":\"None\"," +
		"\"left_child\":{\"leaf_index\":" + f[4] + ",\"leaf_value\":1},\"right_child\":{\"leaf_value\":5}}"
	s = strings.Replace(jsonHead, "2,\"tree_info", f[1]+",\"tree_info", 1) + "{\"num_leaves\":" + f[2] + ",\"num_cat\":" + f[3] + ",\"tree_structure\":" + s + "}]}"
	loadJSON(s)
}

// HJSONCounts : any numbers of leaves, categories and features of trees with 1..3 leaves.
func HJSONCounts() {
	n := 1 + vf.Choose("leaves-1", 3)
	t := numerical(n)
	t.NumLeaves = anyInt("num_leaves")
	s := (&mk.LG{MaxFeature: 2, Trees: []*mk.Tree{t}}).JSON()
	switch vf.Choose("field", 3) {
	case 0:
		s = strings.Replace(s, "\"num_cat\":0", "\"num_cat\":"+anyInt("num_cat"), 1)
	case 1:
		s = strings.Replace(s, "\"max_feature_idx\":2", "\"max_feature_idx\":"+anyInt("max_feature_idx"), 1)
	case 2:
		s = strings.Replace(s, "\"split_feature\":1", "\"split_feature\":"+anyInt("split_feature"), 1)
	}
	loadJSON(s)
}

// HJSONThreshold : any text of up to 2 characters (3 in thorough runs) of those of numbers and separators, with or without a separator between them, as threshold of either kind of node.
func HJSONThreshold() {
	var b []byte
	for i := vf.Choose("length", 3+vf.Tier()); i > 0; i-- {
		c := vf.Byte("character")
		vf.Assume(strings.IndexByte("0129|-+. exE", c) >= 0)
		b = append(b, c)
	}
	if vf.Choose("separator", 2) == 1 && len(b) > 1 {
		b = append(b[:1:1], append([]byte("||"), b[1:]...)...)
	}
	op := []string{"<=", "=="}[vf.Choose("decision", 2)]
	num := vf.Choose("num_cat", 2)
	loadJSON(jsonHead + "{\"num_leaves\":2,\"num_cat\":" + mk.I(num) + ",\"tree_structure\":{\"split_index\":0,\"split_feature\":1,\"threshold\":\"" + string(b) +
		"\",\"decision_type\":\"" + op + "\",\"default_left\":true,\"missing_type\":\"None\",\"left_child\":{\"leaf_value\":1},\"right_child\":{\"leaf_value\":5}}}]}")
}

func number() float32 { return 1.5 }

// lengths are the places of the lengths of names and arrays in an XGBoost file, the last ones behind those of the names.
func lengths(f mk.FileOf) []int {
	second := 136 + 8 + int(f.Bytes[136])
	body := second + 8 + int(f.Bytes[second])
	last := len(f.Bytes) - 8 // leaf vector in front of the two trees' groups
	switch {
	case f.Kind == mk.KindLinear:
		last = body + 4*34
	case f.Trans:
		last -= 8 // weights
	default:
		last -= 16
	}
	return []int{136, second, body, last}
}

// HXGHeader : any one word of the header of an XGBoost file replaced by any other.
func HXGHeader() {
	f := mk.Files[3+vf.Choose("file", 3)](number)
	copy(f.Bytes[4*vf.Choose("word", 34):], mk.U32(nil, vf.U32("word")))
	usable(mk.LoadFrom(f.Kind, bytes.NewReader(f.Bytes), 0, f.Trans))
}

// HXGBody : any one word, or two, behind the header, lengths excepted.
func HXGBody() {
	f := mk.Files[3+vf.Choose("file", 3)](number)
	ls := lengths(f)
	body, last := ls[2], ls[3]
	at := body + 4*vf.Choose("word", (len(f.Bytes)-body)/4)
	two := vf.Choose("two words", 2) == 1 && at+8 <= len(f.Bytes)
	vf.Assume(at != last && at != last+4 && !(two && at == last-4))
	if two {
		copy(f.Bytes[at:], mk.U64(nil, vf.U64("words")))
	} else {
		copy(f.Bytes[at:], mk.U32(nil, vf.U32("word")))
	}
	usable(mk.LoadFrom(f.Kind, bytes.NewReader(f.Bytes), 0, f.Trans))
}

// HXGLengths : lengths of arrays up to one more than what follows, of names up to 40 and around what follows, and any above
// 65535.
func HXGLengths() {
	f := mk.Files[3+vf.Choose("file", 3)](number)
	ls := lengths(f)
	at := ls[[]int{0, 1, 3}[vf.Choose("length", 3)]]
	v := vf.U64("length")
	if at == ls[3] {
		vf.Assume(v <= uint64(len(f.Bytes)-at-8)/4+1 || v >= 1<<16)
		old := uint64(f.Bytes[at])
		vf.Assert(old == uint64(len(f.Bytes)-at-8)/4 || old == 2, "this is the length")
	} else {
		n := uint64(len(f.Bytes) - at - 8)
		vf.Assume(v <= 40 || n-40 <= v && v <= n+1 || v >= 1<<16)
	}
	copy(f.Bytes[at:], mk.U64(nil, v))
	usable(mk.LoadFrom(f.Kind, bytes.NewReader(f.Bytes), 0, f.Trans))
}

// HXGNodes : any references, features and default directions in trees of 1, 3 and 5 nodes.
func HXGNodes() {
	n := []int{1, 3, 5}[vf.Choose("size", 3)]
	t := &mk.XTree{}
	for i := 0; i < n; i++ {
		t.Nodes = append(t.Nodes, mk.XNode{Left: -1, Right: -1, SIndex: 1, Info: float32(i)})
	}
	switch {
	case n < 5:
		for i := range t.Nodes {
			t.Nodes[i].Left, t.Nodes[i].Right, t.Nodes[i].SIndex = vf.I32("left"), vf.I32("right"), vf.U32("feature")
		}
	default:
		t.Nodes[0].Left, t.Nodes[0].Right = 1, 2
		t.Nodes[2].Left, t.Nodes[2].Right = 3, 4
		k := vf.Choose("node", 5)
		t.Nodes[k].Left, t.Nodes[k].Right, t.Nodes[k].SIndex = vf.I32("left"), vf.I32("right"), vf.U32("feature")
	}
	usable((&mk.XG{Features: 3, Trees: []*mk.XTree{t}}).Load(false))
}

// HXGCounts : any number of nodes of a tree, of trees, of leaf vector elements and of weights.
func HXGCounts() {
	a, b := mk.XStump(1, true, 0.5, 1, 2), mk.XStump(0, false, 1, 2, 3)
	m := &mk.XG{Features: 3, Trees: []*mk.XTree{a, b}}
	v := vf.I32("number")
	switch vf.Choose("field", 3) {
	case 0:
		m.NumTrees = &v
	case 1:
		a.NumNodes = &v
	case 2:
		b.NumNodes = &v
	}
	if vf.Choose("dart", 2) == 1 {
		m.Gbm, m.Drop = "dart", []float32{1, 2}
	}
	usable(m.Load(false))
}

// HLinear : any declared numbers of features and groups with 0..7 weights.
func HLinear() {
	m := &mk.XG{Gbm: "gblinear", Features: 3, NumFeature: vf.I32("features"), Groups: vf.I32("groups")}
	vf.Assume(m.Groups != 0)
	for i := vf.Choose("weights", 8); i > 0; i-- {
		m.Weights = append(m.Weights, float32(i))
	}
	usable(m.Load(false))
}

// index is an int within [-128, 127] that needs no escapes in a pickle, or one of some large ones.
func index(label string, large int) int {
	if large > 0 {
		return []int{1 << 31, 1 << 32, 1<<32 + 1, 1 << 40, -1 << 32, -1 << 63, 1<<63 - 1}[large-1]
	}
	b := vf.Byte(label)
	vf.Assume(b != '\n' && b != '\\')
	return int(int8(b))
}

func anyNode() mk.SKNode {
	var l [3]int
	if vf.Choose("large", 2) == 1 {
		l[vf.Choose("field", 3)] = 1 + vf.Choose("value", 7)
	}
	return mk.SKNode{Left: index("left", l[0]), Right: index("right", l[1]), Feature: index("feature", l[2]), Thr: 0.5}
}

func loadSK(m *mk.SK) { usable(mk.LoadSK(m.Bytes())) }

// HSKNodes : any nodes in trees of 1..2 nodes (3 in thorough runs), any one node in trees of 3 and 5.
func HSKNodes() {
	n := []int{1, 2, 3, 5}[vf.Choose("size", 4)]
	t := &mk.SKTree{}
	if n < 3+vf.Tier() {
		for i := 0; i < n; i++ {
			t.Nodes = append(t.Nodes, anyNode())
		}
	} else if n == 3 {
		t.Nodes = []mk.SKNode{{1, 2, 0, 0.5}, mk.SKLeaf(), mk.SKLeaf()}
		t.Nodes[vf.Choose("node", 3)] = anyNode()
	} else {
		t.Nodes = []mk.SKNode{{1, 2, 0, 0.5}, mk.SKLeaf(), {3, 4, 1, 0.25}, mk.SKLeaf(), mk.SKLeaf()}
		t.Nodes[vf.Choose("node", 5)] = anyNode()
	}
	for i := range t.Nodes {
		t.Values = append(t.Values, float64(i))
	}
	loadSK(&mk.SK{Classes: 2, Features: 3, Prior: []float64{0.5}, Trees: []*mk.SKTree{t}})
}

// HSKCounts : any declared numbers; the number of classes and of outputs with arrays of that declared length.
func HSKCounts() {
	a, b := mk.SKStump(0, 1, 2, 3), mk.SKStump(1, 1, 2, 3)
	m := &mk.SK{Classes: 2, Features: 3, Prior: []float64{0.5}, Trees: []*mk.SKTree{a, b}}
	v := vf.Int("number", -1<<62, 1<<62)
	switch vf.Choose("field", 7) {
	case 0:
		a.NFeat, b.NFeat = &v, &v
	case 1:
		b.Count = &v
	case 2:
		m.NClasses, m.ClassesLen = &v, &v
	case 3:
		m.Outputs, m.OutputsLen = &v, &v
	case 4:
		m.Estimators, m.Shape = &v, []int{v, 1}
	case 5:
		w := vf.Int("other number", -1<<62, 1<<62)
		m.Estimators, m.NClasses, m.ClassesLen, m.Shape = &v, &w, &w, []int{v, w}
		m.Trees = nil
	case 6:
		m.Features = v
	}
	loadSK(m)
}

// HSKObjects : any kind of object, also one that contains itself, in place of any other object of the model.
func HSKObjects() {
	b := (&mk.SK{Classes: 2, Features: 3, Prior: []float64{0.5}, Trees: []*mk.SKTree{mk.SKStump(1, 0.5, 2, -1)}}).Bytes()
	objects := []string{"N", "I5\n", "I-1\n", "F1.5\n", "Vx\n", "(t", "(l", "(d", "cm\nc\n", "cm\nc\n(tR", "(dp9\nVa\ng9\ns", "(lp9\ng9\na", "(I1\nI2\nt"}
	o := objects[vf.Choose("object", len(objects))]
	keys := bytes.Count(b, []byte("V")) // every string is followed by an object
	k := vf.Choose("place", keys)
	at := 0
	for i := 0; i <= k; i++ {
		at += bytes.IndexByte(b[at:], 'V') + 1
	}
	at += bytes.IndexByte(b[at:], '\n') + 1
	if vf.Choose("instead of the string", 2) == 1 {
		k := bytes.LastIndexByte(b[:at-1], 'V')
		b = append(append(append([]byte{}, b[:k]...), o...), b[at:]...)
	} else {
		// the value of a dictionary's entry; what was the value becomes that of another key
		b = append(append(append([]byte{}, b[:at]...), o+"sVunknown\n"...), b[at:]...)
	}
	usable(mk.LoadSK(b))
}

// HSKRecursive : a numpy type whose fields have this same type.
func HSKRecursive() {
	p := &mk.Pk{}
	typ := []string{"f8", "V56", "i8"}[vf.Choose("type", 3)]
	p.Global("numpy", "dtype").S("(").Str(typ).Int(0).Int(1).Red()
	p.S("(").Int(3).Str("<").S("N(t(dp7\n").Int(-1).Int(-1).Int(0).Tuple().S("bp8\n") // the type, its fields are g7
	var q mk.Pk
	q.S("(g7\nVa\n(g8\nI0\ntst") // changes g7
	head := p.B
	b := (&mk.SK{Classes: 2, Features: 3, Prior: []float64{0.5}, Trees: []*mk.SKTree{mk.SKStump(1, 0.5, 2, -1)}}).Bytes()
	old := (&mk.Pk{}).DType(typ, false).B
	at := bytes.Index(b, old)
	vf.Assert(at > 0, "the type is in the model")
	// ((the type)(fields with the type)) leaves a tuple; the type itself is fetched again
	b = append(append(append([]byte{}, b[:at]...), "g8\n"...), b[at+len(old):]...)
	pre := append(append([]byte{}, head...), q.B...)
	b = append(pre, b...)
	usable(mk.LoadSK(b))
}

// HCommands : any 2 bytes (3 in thorough runs), then any of four ends.
func HCommands() {
	n := 2 + vf.Tier()
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, vf.Byte("byte"))
	}
	b = append(b, []string{"", ".", "\n.", "\n\n."}[vf.Choose("end", 4)]...)
	decode(b)
}

func decode(b []byte) {
	v, err := pickle.NewDecoder(bytes.NewReader(b)).Decode()
	vf.Assert(err == nil || v == nil, "either an object or an error")
	e, err := mk.LoadSK(b)
	vf.Assert(err != nil && e == nil, "this is no model")
}

// HPrograms : any sequence of 4 commands (5 in thorough runs) on top of a list, a dictionary, objects behind a mark or nothing.
func HPrograms() {
	ops := []string{"(", "t", "l", "d", "a", "s", "R", "b", "p0\n", "g0\n", "N", "I1\n", "Vk\n", "cm\nc\n"}
	b := []byte([]string{"", "(lp0\n", "(dp0\n", "(N", "(Vk\nNVk\n"}[vf.Choose("start", 5)])
	for i := 3 + vf.Tier(); i > 0; i-- {
		b = append(b, ops[vf.Choose("command", len(ops))]...)
	}
	decode(append(b, '.'))
}
