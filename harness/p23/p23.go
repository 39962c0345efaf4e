package p23

import (
	"math"

	"github.com/dmitryikh/leaves/internal/pickle"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// Decoded pickles, made without going through their text (P22 is about that), so that every byte of a payload is arbitrary.

func g(module, name string) pickle.Global { return pickle.Global{Module: module, Name: name} }
func u(s string) pickle.Unicode           { return pickle.Unicode(s) }
func tup(v ...interface{}) pickle.Tuple   { return pickle.Tuple(v) }

func call(module, name string, args ...interface{}) pickle.Reduce {
	return pickle.Reduce{Callable: g(module, name), Args: tup(args...)}
}

func build(obj, args interface{}) pickle.Build { return pickle.Build{Object: obj, Args: args} }

func dtype(typ, order string) pickle.Build {
	none := pickle.None{}
	return build(call("numpy", "dtype", u(typ), 0, 1), tup(3, u(order), none, none, none, -1, -1, 0))
}

var fieldNames = []string{"left_child", "right_child", "feature", "threshold", "impurity", "n_node_samples", "weighted_n_node_samples"}

// record is the dtype of tree nodes.
func record(order string) pickle.Build {
	i8, f8 := dtype("i8", order), dtype("f8", order)
	fields := pickle.Dict{}
	names := pickle.Tuple{}
	for i, n := range fieldNames {
		t := f8
		if i < 3 || i == 5 {
			t = i8
		}
		fields[n] = tup(t, 8*i)
		names = append(names, u(n))
	}
	return build(call("numpy", "dtype", u("V56"), 0, 1), tup(3, u("|"), pickle.None{}, names, fields, 56, 1, 16))
}

func raw(b []byte) pickle.Reduce {
	return call("_codecs", "encode", pickle.Unicode(b), u("latin1"))
}

func array(dt pickle.Build, data interface{}, shape ...int) pickle.Build {
	s := pickle.Tuple{}
	for _, d := range shape {
		s = append(s, d)
	}
	return build(call("numpy.core.multiarray", "_reconstruct", g("numpy", "ndarray"), tup(0), raw([]byte("b"))), tup(1, s, dt, 0, data))
}

func scalar(dt pickle.Build, b []byte) pickle.Reduce {
	return call("numpy.core.multiarray", "scalar", dt, raw(b))
}

func object(module, name string, state interface{}) pickle.Build {
	return build(call("copy_reg", "_reconstructor", g(module, name), g("__builtin__", "object"), pickle.None{}), state)
}

func some(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.Byte("byte")
	}
	return b
}

// word is the number in 8 bytes.
func word(b []byte, big bool) uint64 {
	v := uint64(0)
	for i := 0; i < 8; i++ {
		k := uint(8 * i)
		if big {
			k = uint(56 - 8*i)
		}
		v |= uint64(b[i]) << k
	}
	return v
}

func float(b []byte, big bool) float64 { return math.Float64frombits(word(b, big)) }

var one = []byte{1, 0, 0, 0, 0, 0, 0, 0}

// tree is a regressor with everything but nodes and values as it should be.
func tree(count int, nodes, values interface{}) pickle.Build {
	t := build(call("sklearn.tree._tree", "Tree", 4, array(dtype("i8", "<"), raw(one), 1), 1),
		pickle.Dict{"max_depth": 3, "node_count": count, "nodes": nodes, "values": values})
	return object("sklearn.tree.tree", "DecisionTreeRegressor", pickle.Dict{
		"n_classes_": scalar(dtype("i8", "<"), one), "max_features_": 4, "n_outputs_": 1, "tree_": t})
}

func order(big bool) string {
	if big {
		return ">"
	}
	return "<"
}

func parseTree(obj interface{}) (*pickle.SklearnTree, error) {
	t := &pickle.SklearnDecisionTreeRegressor{}
	err := pickle.ParseClass(t, obj)
	return &t.Tree, err
}

// HTree : trees of 1 to 3 (thorough: 7) nodes: all bytes of the records and of the values, both byte orders of each.
func HTree() {
	n := 1 + vf.Choose("nodes-1", 3+4*vf.Tier())
	nb, vb := vf.Choose("node order", 2) == 1, vf.Choose("value order", 2) == 1
	nodes, values := some(56*n), some(8*n)
	t, err := parseTree(tree(n, array(record(order(nb)), raw(nodes), n), array(dtype("f8", order(vb)), raw(values), n, 1, 1)))
	vf.Assert(err == nil && len(t.Nodes) == n && len(t.Values) == n, "every node and value is decoded")
	for i := 0; i < n; i++ {
		b, d := nodes[56*i:56*i+56], &t.Nodes[i]
		vf.Assert(d.LeftChild == int(word(b, nb)) && d.RightChild == int(word(b[8:], nb)) && d.Feature == int(word(b[16:], nb)), "the integers of a node record")
		vf.Assert(vf.SameBits(d.Threshold, float(b[24:], nb)), "the threshold of a node record")
		vf.Assert(vf.SameBits(d.Impurity, float(b[32:], nb)) && d.NNodeSamples == int(word(b[40:], nb)) && vf.SameBits(d.WeightedNNodeSamples, float(b[48:], nb)), "the statistics of a node record")
		vf.Assert(vf.SameBits(t.Values[i], float(values[8*i:], vb)), "the value of a node")
	}
}

// HTreeBad : node and value payloads of lengths that do not fit the shape, the count of nodes, or the size of an element, and
// types that are not what is expected.
func HTreeBad() {
	n := vf.Choose("nodes", 3)
	nl, vl := 56*n, 8*n
	nshape, vshape := []int{n}, []int{n, 1, 1}
	nt, vt := record("<"), dtype("f8", "<")
	count := n
	switch vf.Choose("damage", 9) {
	case 0:
		nl = []int{0, 1, 8, 55, 56, 57, 111, 112, 113, 168}[vf.Choose("length", 10)]
		vf.Assume(nl != 56*n)
	case 1:
		vl = vf.Choose("length", 25)
		vf.Assume(vl != 8*n)
	case 2:
		nshape[0] = vf.Choose("dimension", 5) - 1
		vf.Assume(nshape[0] != n)
	case 3:
		d := vf.Choose("which", 3)
		v := vf.Choose("dimension", 5) - 1
		vf.Assume(vshape[d] != v && n > 0)
		vshape[d] = v
	case 4:
		count = vf.Int("count", -5, 5)
		vf.Assume(count != n)
	case 5:
		nt = dtype([]string{"V55", "V57", "f8", "i8", "", "V"}[vf.Choose("type", 6)], "<")
	case 6:
		vt = dtype([]string{"f4", "i8", "f16", "", "O8", "f"}[vf.Choose("type", 6)], order(vf.Choose("order", 2) == 1))
	case 7:
		nshape = nil
	case 8:
		vshape = nil
	}
	vf.Cover("damaged")
	_, err := parseTree(tree(count, array(nt, raw(some(nl)), nshape...), array(vt, raw(some(vl)), vshape...)))
	vf.Assert(err != nil, "a payload that contradicts its declaration is an error")
}

// model is an ensemble whose parts are replaced by name.
func model(classes int, k int, with func(d pickle.Dict, init pickle.Dict)) pickle.Build {
	cl := make([]int, classes)
	for i := range cl {
		cl[i] = i + 5
	}
	leaf := mk.I64s(-1, -1, -2)
	leaf = append(leaf, make([]byte, 32)...)
	list := pickle.List{}
	for i := 0; i < k; i++ {
		list = append(list, tree(1, array(record("<"), raw(leaf), 1), array(dtype("f8", "<"), raw(one), 1, 1, 1)))
	}
	init, name := pickle.Dict{}, "PriorProbabilityEstimator"
	if classes == 2 {
		name = "LogOddsEstimator"
		init["prior"] = scalar(dtype("f8", "<"), one)
	} else {
		init["priors"] = array(dtype("f8", "<"), raw(make([]byte, 8*classes)), classes)
	}
	d := pickle.Dict{"n_classes_": classes, "learning_rate": 0.5, "loss": u("deviance"), "max_features_": 4, "n_estimators": 1,
		"init_": object("sklearn.ensemble.gradient_boosting", name, init), "estimators_": array(dtype("O8", "|"), list, 1, k),
		"classes_": array(dtype("i8", "<"), raw(mk.I64s(cl...)), classes)}
	with(d, init)
	return object("sklearn.ensemble.gradient_boosting", "GradientBoostingClassifier", d)
}

func groups(classes int) int {
	if classes == 2 {
		return 1
	}
	return classes
}

// HModel : the class labels and priors of models with 1 to 4 classes, all bytes, both orders of the priors.
func HModel() {
	classes := 1 + vf.Choose("classes-1", 4)
	k := groups(classes)
	big := vf.Choose("order", 2) == 1
	labels, priors := some(8*classes), some(8*k)
	var m pickle.SklearnGradientBoosting
	err := pickle.ParseClass(&m, model(classes, k, func(d, init pickle.Dict) {
		d["classes_"] = array(dtype("i8", "<"), raw(labels), classes)
		if classes == 2 {
			init["prior"] = scalar(dtype("f8", order(big)), priors)
		} else {
			init["priors"] = array(dtype("f8", order(big)), raw(priors), classes)
		}
	}))
	vf.Assert(err == nil && len(m.Classes) == classes && len(m.InitEstimator.Prior) == k, "every label and prior is decoded")
	for i := 0; i < classes; i++ {
		vf.Assert(m.Classes[i] == int(word(labels[8*i:], false)), "a class label")
	}
	for i := 0; i < k; i++ {
		vf.Assert(vf.SameBits(m.InitEstimator.Prior[i], float(priors[8*i:], big)), "a prior")
	}
}

// HModelBad : payloads of a model that contradict its declarations.
func HModelBad() {
	classes := 1 + vf.Choose("classes-1", 4)
	k := groups(classes)
	damage := vf.Choose("damage", 8)
	var m pickle.SklearnGradientBoosting
	err := pickle.ParseClass(&m, model(classes, k, func(d, init pickle.Dict) {
		switch damage {
		case 0:
			n := vf.Choose("length", 41)
			vf.Assume(n != 8*classes)
			d["classes_"] = array(dtype("i8", "<"), raw(some(n)), classes)
		case 1:
			s := vf.Choose("dimension", 6) - 1
			vf.Assume(s != classes)
			d["classes_"] = array(dtype("i8", "<"), raw(some(8*classes)), s)
		case 2:
			n := vf.Choose("length", 41)
			vf.Assume(n != 8*k)
			if classes == 2 {
				init["prior"] = scalar(dtype("f8", "<"), some(n))
			} else {
				init["priors"] = array(dtype("f8", "<"), raw(some(n)), classes)
			}
		case 3:
			vf.Assume(classes != 2)
			s := vf.Choose("dimension", 6) - 1
			vf.Assume(s != classes)
			init["priors"] = array(dtype("f8", "<"), raw(some(8*classes)), s)
		case 4:
			t := dtype([]string{"f4", "i8", "", "V8"}[vf.Choose("type", 4)], "<")
			if classes == 2 {
				init["prior"] = scalar(t, some(8))
			} else {
				init["priors"] = array(t, raw(some(8*classes)), classes)
			}
		case 5:
			t := dtype([]string{"f8", "i4", "", "V8"}[vf.Choose("type", 4)], "<")
			if vf.Choose("big", 2) == 1 {
				t = dtype("i8", ">")
			}
			d["classes_"] = array(t, raw(some(8*classes)), classes)
		case 6:
			d["classes_"] = array(dtype("i8", "<"), raw(some(8*classes)))
		case 7:
			a, b := vf.Int("dimension", -2, 6), vf.Int("dimension", -2, 6)
			vf.Assume(a != 1 || b != k)
			l := d["estimators_"].(pickle.Build)
			l.Args.(pickle.Tuple)[1] = tup(a, b)
		}
	}))
	vf.Cover("damaged")
	vf.Assert(err != nil, "a payload that contradicts its declaration is an error")
}

// HScalar : the one scalar of a tree, of its type, in the other byte order, and of other types.
func HScalar() {
	n := vf.Choose("length", 18)
	kind := vf.Choose("type", 6)
	b := some(n)
	t := tree(1, array(record("<"), raw(some(56)), 1), array(dtype("f8", "<"), raw(some(8)), 1, 1, 1))
	t.Args.(pickle.Dict)["n_classes_"] = scalar(dtype([]string{"i8", "i8", "f8", "i4", "u8", "O8"}[kind], []string{"<", ">", "<", "<", "<", "|"}[kind]), b)
	var r pickle.SklearnDecisionTreeRegressor
	err := pickle.ParseClass(&r, t)
	vf.Assert(kind != 0 || (err == nil) == (n == 8), "a scalar has the length of its type")
	vf.Assert(err != nil || n == 8, "a scalar has the length of its type, in any byte order")
	vf.Assert(err != nil || kind < 2, "a scalar of another type is refused")
	vf.Assert(err != nil || r.NClasses == int(word(b, kind == 1)), "a scalar is decoded exactly")
	if kind == 5 && n == 8 {
		vf.Cover("objects")
	}
}

// HIterate : payloads of up to 24 bytes in pieces of 1 to 9.
func HIterate() {
	b := some(vf.Choose("length", 25))
	size := 1 + vf.Choose("size-1", 9)
	data := pickle.NumpyRawBytes(b)
	var got []byte
	calls := 0
	err := data.Iterate(size, func(p []byte) error {
		vf.Assert(len(p) == size, "pieces of an element")
		got = append(got, p...)
		calls++
		return nil
	})
	vf.Assert((err == nil) == (len(b)%size == 0), "a whole number of elements")
	if err != nil {
		return
	}
	vf.Assert(calls == len(b)/size && len(got) == len(b), "every element")
	for i := range b {
		vf.Assert(got[i] == b[i], "in order")
	}
}

// HEndToEnd : a prior in a pickled model, with one arbitrary byte at each place.
func HEndToEnd() {
	at := vf.Choose("at", 8)
	big := vf.Choose("order", 2) == 1
	b := []byte{0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0x3f}
	if big {
		b = []byte{0x3f, 0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde}
	}
	b[at] = vf.Byte("byte")
	prior := float(b, big)
	m := &mk.SK{Classes: 2, Features: 1, Prior: []float64{prior}, Big: big, Memo: vf.Choose("memo", 2) == 1, Rate: "0",
		Trees: []*mk.SKTree{{Nodes: []mk.SKNode{mk.SKLeaf()}, Values: []float64{1}}}}
	out := mk.Predict(m.MustLoad(), []float64{0})
	vf.Assert(vf.SameBits(out, prior), "the prior is the one pickled")
}
