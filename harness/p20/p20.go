package p20

import (
	"bufio"
	"bytes"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/zzverif/mk"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// refused checks the outcome of loading a model that is to be refused unless ok.
func refused(e *leaves.Ensemble, err error, ok bool, msg string) {
	vf.Assert((err == nil) == (e != nil), "either a model or an error")
	if err == nil {
		vf.Assert(ok, msg)
		vf.Cover("accepted")
	} else if !ok {
		vf.Cover("refused")
	}
}

func loadText(s string, trans bool) (*leaves.Ensemble, error) {
	return leaves.LGEnsembleFromReader(bufio.NewReader(bytes.NewReader([]byte(s))), trans)
}

func constant(n int) (ts []*mk.Tree) {
	for i := 0; i < n; i++ {
		ts = append(ts, &mk.Tree{Leaf: mk.Fs(1 + float64(i))})
	}
	return
}

// text is a header with arbitrary numbers of classes; the objective may depend on classes.
func text(version, classes, perIter, objective string, avg bool, trees int) string {
	s := "tree\nversion=" + version + "\nnum_class=" + classes + "\nnum_tree_per_iteration=" + perIter + "\nlabel_index=0\nmax_feature_idx=1\n"
	if objective != "" {
		s += "objective=" + objective + "\n"
	}
	if avg {
		s += "average_output\n"
	}
	s += "tree_sizes=" + strings.TrimSpace(strings.Repeat("99 ", trees)) + "\n\n"
	for i, t := range constant(trees) {
		s += t.Text(i)
	}
	return s
}

var versions = []string{"v2", "v3", "", "v", "v1", "v4", "v22", "v2 ", "V3", "2", "v3.1"}

// HText : any numbers of classes and of trees per iteration, 0..6 trees, known and unknown versions, with and without
// averaging.
func HText() {
	v := versions[vf.Choose("version", len(versions))]
	nc, pi := vf.I64("num_class"), vf.I64("num_tree_per_iteration")
	trees := vf.Choose("trees", 7)
	s := text(v, vf.IntTok(nc), vf.IntTok(pi), "regression", vf.Choose("average", 2) == 1, trees)
	trans := vf.Choose("transformation", 2) == 1
	vf.Assume(v == "v2" || v == "v3" || trees == 2)
	e, err := loadText(s, trans)
	t := strings.TrimSpace(v)
	refused(e, err, (t == "v2" || t == "v3") && nc == pi && nc >= 1 && trees > 0 && int64(trees)%nc == 0, "a contradictory header is refused")
}

// HVersion : any two characters as version.
func HVersion() {
	a, b := vf.Byte("a"), vf.Byte("b")
	vf.Assume(a > ' ' && b > ' ' && a < 127 && b < 127 && a != '=' && b != '=')
	e, err := loadText(text(string([]byte{a, b}), "1", "1", "regression", false, 1), false)
	refused(e, err, a == 'v' && (b == '2' || b == '3'), "an unknown version is refused")
}

// objective says whether the text names a supported objective of a model with so many classes.
func objective(o string, classes int) bool {
	if strings.HasPrefix(o, "regression") {
		return !strings.HasSuffix(o, " sqrt") // the outputs of these are to be squared
	}
	if o == "poisson" || o == "gamma" || o == "tweedie" {
		return classes == 1
	}
	if strings.HasPrefix(o, "binary sigmoid:") {
		v, err := strconv.Atoi(o[len("binary sigmoid:"):])
		return err == nil && v == 1 && classes == 1
	}
	if strings.HasPrefix(o, "multiclass num_class:") {
		v, err := strconv.Atoi(o[len("multiclass num_class:"):])
		return err == nil && v == classes
	}
	return false
}

var objectives = []string{"regression", "binary sigmoid:1", "poisson", "gamma", "tweedie", "multiclass num_class:3", "multiclass num_class:2",
	"binary sigmoid:2", "binary", "multiclass", "lambdarank", "cross_entropy", "multiclassova num_class:3 sigmoid:1", "xentropy", "huber", "mape",
	"quantile", "fair", "", "binary sigmoid:1 is_unbalance", "multiclass  num_class:3", "binary num_class:1", "multiclass sigmoid:3", "rank_xendcg",
	"poisson max_delta_step:0.7", "multiclass num_class:1", "binary sigmoid:", "binary sigmoid:1.5", "custom",
	"regression sqrt", "regression_l1 sqrt", "regression_l1"}

// HObjective : known and unknown objectives with 1..4 classes.
func HObjective() {
	o := objectives[vf.Choose("objective", len(objectives))]
	n := 1 + vf.Choose("classes-1", 4)
	avg, trans := vf.Choose("average", 2) == 1, vf.Choose("transformation", 2) == 1
	e, err := loadText(text("v3", mk.I(n), mk.I(n), o, avg, n), trans)
	refused(e, err, !trans || avg || objective(o, n), "an objective that is unknown or contradicts the model is refused")
	if !trans || avg {
		vf.Assert(err == nil, "the objective does not matter if no transformation is requested")
	}
}

// HObjectiveBytes : a supported objective with one character replaced by any other.
func HObjectiveBytes() {
	k := vf.Choose("objective", 6)
	o := []byte(objectives[k])
	n := 1
	if k == 5 {
		n = 3
	}
	at := vf.Choose("at", len(o))
	c := vf.Byte("character")
	vf.Assume(c > ' ' && c < 127 && c != '=')
	o[at] = c
	e, err := loadText(text("v2", mk.I(n), mk.I(n), string(o), false, n), true)
	refused(e, err, objective(string(o), n), "an objective with a character replaced is refused")
}

// HObjectiveNumber : any parameter of the sigmoid and any number of classes in the objective.
func HObjectiveNumber() {
	v := vf.I64("number")
	n := 1 + vf.Choose("classes-1", 3)
	s := []string{"binary sigmoid:", "multiclass num_class:"}
	k := vf.Choose("objective", 2)
	e, err := loadText(text("v2", mk.I(n), mk.I(n), s[k]+vf.IntTok(v), false, n), true)
	ok := v == int64(n)
	if k == 0 {
		ok = v == 1 && n == 1
	}
	refused(e, err, ok, "parameters that contradict the model are refused")
}

// HMissing : any decision type of a node, numerical or categorical.
func HMissing() {
	d := vf.U32("decision type")
	t := &mk.Tree{Left: mk.Is(^0), Right: mk.Is(^1), Feature: mk.Is(0), Dec: []string{vf.IntTok(int64(d))}, Thr: mk.Is(0), Leaf: mk.Fs(1, 2), NumCat: 1,
		CatBound: mk.Is(0, 1), CatThr: mk.Is(6)}
	m := &mk.LG{MaxFeature: 1, Trees: []*mk.Tree{t}}
	if vf.Choose("inner", 2) == 1 {
		t.Left, t.Right, t.Feature, t.Dec, t.Thr, t.Leaf = mk.Is(1, ^0), mk.Is(^2, ^1), mk.Is(1, 0), append([]string{"2"}, t.Dec...), mk.Is(0, 0), mk.Fs(1, 2, 3)
	}
	e, err := m.Load(false)
	refused(e, err, d>>2&3 != 3, "an unknown missing type is refused")
}

func loadJSON(s string, trans bool) (*leaves.Ensemble, error) {
	return leaves.LGEnsembleFromJSON(bytes.NewReader([]byte(s)), trans)
}

// HJSON : any numbers of classes and trees per iteration, 0..4 trees, names and versions, transformation requested or not.
func HJSON() {
	name := []string{"tree", "", "Tree", "trees"}[vf.Choose("name", 4)]
	version := []string{"v2", "", "v3", "v1", "2"}[vf.Choose("version", 5)]
	nc, pi := vf.I64("num_class"), vf.I64("num_tree_per_iteration")
	trees := vf.Choose("trees", 5)
	trans := vf.Choose("transformation", 2) == 1
	vf.Assume(name == "tree" && version == "v2" || trees == 2)
	var ts []string
	for i, t := range constant(trees) {
		ts = append(ts, t.JSON(i))
	}
	s := "{\"name\":\"" + name + "\",\"version\":\"" + version + "\",\"num_class\":" + vf.IntTok(nc) + ",\"num_tree_per_iteration\":" + vf.IntTok(pi) +
		",\"label_index\":0,\"max_feature_idx\":1,\"tree_info\":[" + strings.Join(ts, ",") + "]}"
	e, err := loadJSON(s, trans)
	refused(e, err, !trans && name == "tree" && version == "v2" && nc == pi && nc >= 1 && trees > 0 && int64(trees)%nc == 0, "a contradictory dump is refused")
}

// HJSONAbsent : a dump without one of its fields.
func HJSONAbsent() {
	fs := []string{"\"name\":\"tree\"", "\"version\":\"v2\"", "\"num_class\":1", "\"num_tree_per_iteration\":1", "\"tree_info\":[" + constant(1)[0].JSON(0) + "]"}
	k := vf.Choose("absent", len(fs)+1)
	var s []string
	for i, f := range fs {
		if i != k {
			s = append(s, f)
		}
	}
	e, err := loadJSON("{\"max_feature_idx\":1,"+strings.Join(s, ",")+"}", false)
	refused(e, err, k == len(fs), "a dump without a required field is refused")
}

// HTextAbsent : a text without one of the header's required fields.
func HTextAbsent() {
	s := text("v3", "1", "1", "regression", false, 1)
	fs := []string{"version=v3\n", "num_class=1\n", "num_tree_per_iteration=1\n", "max_feature_idx=1\n", "tree_sizes=99\n", "objective=regression\n", "label_index=0\n"}
	k := vf.Choose("absent", len(fs))
	trans := vf.Choose("transformation", 2) == 1
	e, err := loadText(strings.Replace(s, fs[k], "", 1), trans)
	refused(e, err, k == 6 || k == 5 && !trans, "a text without a required field is refused")
}

// HJSONNames : a node's missing type and decision type with one character replaced by any other, or of other lengths.
func HJSONNames() {
	missing := []string{"None", "Zero", "NaN"}
	m := []byte(missing[vf.Choose("missing", 3)])
	d := []byte([]string{"<=", "=="}[vf.Choose("decision", 2)])
	thr := "0.5"
	if d[0] == '=' {
		thr = "\"1||2\""
	}
	c := vf.Byte("character")
	vf.Assume(c >= ' ' && c < 127 && c != '"' && c != '\\')
	switch k := vf.Choose("change", 10); k {
	case 0, 1, 2, 3:
		vf.Assume(k < len(m))
		m[k] = c
	case 4, 5:
		d[k-4] = c
	case 6:
		m = append(m, c)
	case 7:
		d = append(d, c)
	case 8:
		d = nil
	case 9:
		m = m[:2]
	}
	node := "{\"split_index\":0,\"split_feature\":1,\"threshold\":" + thr + ",\"decision_type\":\"" + string(d) + "\",\"default_left\":true,\"missing_type\":\"" +
		string(m) + "\",\"left_child\":{\"leaf_value\":1},\"right_child\":{\"leaf_value\":2}}"
	s := "{\"name\":\"tree\",\"version\":\"v2\",\"num_class\":1,\"num_tree_per_iteration\":1,\"max_feature_idx\":1,\"tree_info\":[{\"num_leaves\":2,\"num_cat\":1,\"tree_structure\":" +
		node + "}]}"
	e, err := loadJSON(s, false)
	ok := string(m) == "None" || string(m) == "Zero" || string(m) == "NaN"
	numerical := string(d) == "<="
	refused(e, err, ok && (numerical && thr == "0.5" || string(d) == "==" && thr != "0.5"), "an unknown missing or decision type is refused")
}

// HXG : any header: numbers of features of the learner, the booster and a tree, roots of the booster and a tree.
func HXG() {
	m := &mk.XG{Features: vf.U32("features")}
	if vf.Choose("dart", 2) == 1 {
		m.Gbm, m.Drop = "dart", []float32{1, 1}
	}
	a, b := &mk.XTree{Nodes: []mk.XNode{mk.XLeaf(1)}}, &mk.XTree{Nodes: []mk.XNode{mk.XLeaf(2)}}
	m.Trees = []*mk.XTree{a, b}
	ok := m.Features > 0
	switch vf.Choose("field", 4) {
	case 0:
		m.NumFeature = vf.I32("features of the booster")
		ok = ok && int64(m.NumFeature) <= int64(m.Features)
	case 1:
		b.NumFeature = vf.I32("features of a tree")
		ok = ok && int64(b.NumFeature) <= int64(m.Features)
	case 2:
		m.NumRoots = vf.I32("roots of the booster")
		vf.Assume(m.NumRoots != 0)
		ok = ok && m.NumRoots == 1
	case 3:
		a.NumRoots = vf.I32("roots of a tree")
		vf.Assume(a.NumRoots != 0)
		ok = ok && a.NumRoots == 1
	}
	e, err := m.Load(false)
	refused(e, err, ok, "a contradictory header is refused")
}

// HXGNoRoots : no roots.
func HXGNoRoots() {
	m := &mk.XG{Features: 2, Trees: []*mk.XTree{{Nodes: []mk.XNode{mk.XLeaf(1)}}}}
	b := m.Bytes()
	at := len(m.Header()) + 4
	if vf.Choose("tree", 2) == 1 {
		at = len(m.Header()) + 32 + 128
	}
	vf.Assert(b[at] == 1, "number of roots")
	b[at] = 0
	e, err := mk.LoadX(b, false, false)
	vf.Assert(err != nil && e == nil, "a model without roots is refused")
}

// HXGGroups : any groups of 0..4 trees, any number of groups.
func HXGGroups() {
	n := vf.Choose("trees", 5)
	g := vf.I32("groups")
	m := &mk.XG{Features: 2, Groups: g, Info: []int32{}}
	if vf.Choose("dart", 2) == 1 {
		m.Gbm = "dart"
	}
	vf.Assume(g != 0)
	ok := n > 0 && g > 0 && int32(n)%g == 0
	for i := 0; i < n; i++ {
		m.Trees = append(m.Trees, &mk.XTree{Nodes: []mk.XNode{mk.XLeaf(1)}})
		m.Info = append(m.Info, vf.I32("group of a tree"))
		m.Drop = append(m.Drop, 1)
		if ok && m.Info[i] != int32(i)%g {
			ok = false
		}
	}
	e, err := m.Load(false)
	refused(e, err, ok, "trees that do not cycle over the groups are refused")
}

// HDart : any number of weights.
func HDart() {
	n, k := 1+vf.Choose("trees-1", 3), vf.Choose("weights", 6)
	m := &mk.XG{Gbm: "dart", Features: 2}
	for i := 0; i < n; i++ {
		m.Trees = append(m.Trees, &mk.XTree{Nodes: []mk.XNode{mk.XLeaf(1)}})
	}
	m.NoDrop = k == 5
	if !m.NoDrop {
		m.Drop = make([]float32, k)
	}
	e, err := m.Load(false)
	refused(e, err, n == k, "dart weights that do not match the trees are refused")
}

// HXGNames : the booster's or objective's name with one character replaced by any other, longer or shorter; read as a
// tree model or as a linear one.
func HXGNames() {
	linear := vf.Choose("linear", 2) == 1
	gbms := []string{"gbtree", "dart", "gblinear"}
	g := vf.Choose("booster", 3)
	gbm := []byte(gbms[g])
	obj := []byte("binary:logistic")
	trans := vf.Choose("transformation", 2) == 1
	groups := int32(1)
	change := vf.Choose("change", 7)
	switch change {
	case 0:
		gbm[vf.Choose("at", len(gbm))] = vf.Byte("character")
	case 1:
		obj[vf.Choose("at", len(obj))] = vf.Byte("character")
	case 2:
		gbm = append(gbm, vf.Byte("character"))
	case 3:
		obj = append(obj, vf.Byte("character"))
	case 4:
		gbm = gbm[:vf.Choose("length", len(gbm))]
	case 5:
		obj = []byte([]string{"", "reg:linear", "reg:logistic", "binary:logitraw", "multi:softprob", "multi:softmax", "count:poisson", "rank:pairwise"}[vf.Choose("objective", 8)])
	case 6:
		groups = 2
	}
	m := &mk.XG{Gbm: gbms[g], Features: 2, NumFeature: 2, Groups: groups}
	if g == 2 {
		m.Weights = make([]float32, 3*groups)
	}
	for i := int32(0); i < groups; i++ {
		m.Trees = append(m.Trees, &mk.XTree{Nodes: []mk.XNode{mk.XLeaf(1)}})
		m.Drop = append(m.Drop, 1)
	}
	h := len(m.Header())
	body := m.Bytes()[h:]
	if g == 0 {
		body = mk.U32(mk.U64(body, 1), 0x3f800000) // enough to be read as dart
	}
	b := mk.Str(mk.Str(m.Header()[:136], string(obj)), string(gbm))
	e, err := mk.LoadX(append(b, body...), linear, trans)
	k := string(gbm)
	ok := (k == "gblinear") == linear && (k == "gbtree" || k == "dart" || k == "gblinear") && (!trans || string(obj) == "binary:logistic" && groups == 1)
	refused(e, err, ok, "an unknown booster or objective is refused")
}

// HLinear : any number of features of the learner and groups.
func HLinear() {
	m := &mk.XG{Gbm: "gblinear", Features: vf.U32("features"), NumFeature: 2, Groups: vf.I32("groups")}
	vf.Assume(m.Groups != 0)
	m.Weights = make([]float32, vf.Choose("weights", 8))
	e, err := m.Load(false)
	refused(e, err, m.Features != 0 && m.Groups >= 1 && int64(len(m.Weights)) == 3*int64(m.Groups), "a contradictory linear model is refused")
}

// HSK : any declared numbers: iterations, classes, shape of the trees' array, node counts; 0..4 trees.
func HSK() {
	classes := 1 + vf.Choose("classes-1", 3)
	m := &mk.SK{Classes: classes, Features: 2, Prior: []float64{0.5, 1, -1}[:1]}
	if classes == 3 {
		m.Prior = []float64{0.5, 1, -1}
	} else if classes == 1 {
		m.Init = "LogOddsEstimator"
	}
	trees := vf.Choose("trees", 5)
	for i := 0; i < trees; i++ {
		m.Trees = append(m.Trees, &mk.SKTree{Nodes: []mk.SKNode{mk.SKLeaf()}, Values: []float64{float64(i)}})
	}
	g := m.Groups()
	m.Iters = 1
	n := vf.Int("iterations", -1<<62, 1<<62)
	d0, d1 := vf.Int("first dimension", -1<<62, 1<<62), vf.Int("second dimension", -1<<62, 1<<62)
	m.Estimators, m.Shape = &n, []int{d0, d1}
	e, err := mk.LoadSK(m.Bytes())
	refused(e, err, n >= 1 && d0 == n && d1 == g && trees > 0 && trees%g == 0 && n == trees/g, "trees that contradict the parameters are refused")
}

// HSKClasses : any declared number of classes, with its list or without.
func HSKClasses() {
	classes := 1 + vf.Choose("classes-1", 4)
	m := &mk.SK{Classes: classes, Features: 2, Prior: []float64{0.5, 1, -1, 2}[:1]}
	if classes > 2 {
		m.Prior = []float64{0.5, 1, -1, 2}[:classes]
	} else if classes == 1 {
		m.Init = "LogOddsEstimator"
	}
	for i := 0; i < m.Groups(); i++ {
		m.Trees = append(m.Trees, &mk.SKTree{Nodes: []mk.SKNode{mk.SKLeaf()}, Values: []float64{float64(i)}})
	}
	n := vf.Int("declared classes", -1<<62, 1<<62)
	m.NClasses = &n
	if vf.Choose("list", 2) == 1 {
		m.ClassesLen = &n
	}
	e, err := mk.LoadSK(m.Bytes())
	refused(e, err, n == classes, "a number of classes that contradicts the list of classes is refused")
}

// HSKDims : any declared dimensions of the trees: nodes, features of two trees, outputs.
func HSKDims() {
	a, b := mk.SKStump(0, 1, 2, 3), mk.SKStump(1, 1, 2, 3)
	m := &mk.SK{Classes: 2, Features: 2, Prior: []float64{0.5}, Trees: []*mk.SKTree{a, b}}
	v := vf.Int("number", -1<<62, 1<<62)
	ok := false
	switch vf.Choose("field", 5) {
	case 0:
		b.Count, ok = &v, v == 3
	case 1:
		b.NFeat, ok = &v, v == 2
	case 2:
		a.NFeat, ok = &v, v == 2
	case 3:
		m.Outputs, ok = &v, v == 1
	case 4:
		m.OutputsLen, ok = &v, v == 1
	}
	e, err := mk.LoadSK(m.Bytes())
	refused(e, err, ok, "a tree whose dimensions contradict each other is refused")
}

// HSKNames : class names with a character replaced, and numbers of priors.
func HSKNames() {
	init := []string{"LogOddsEstimator", "PriorProbabilityEstimator"}[vf.Choose("init", 2)]
	class, tree := "GradientBoostingClassifier", "DecisionTreeRegressor"
	classes := 2 + vf.Choose("classes-2", 2)
	priors := vf.Choose("priors", 5)
	change := vf.Choose("change", 4)
	names := []*string{&init, &class, &tree}
	c := vf.Byte("character")
	vf.Assume(c > ' ' && c < 127)
	want := []string{init, class, tree}
	if change < 3 {
		b := []byte(*names[change])
		b[vf.Choose("at", len(b))] = c
		*names[change] = string(b)
	}
	m := &mk.SK{Classes: classes, Features: 2, Init: init, Class: class, TreeClass: tree, Prior: make([]float64, priors)}
	for i := 0; i < m.Groups(); i++ {
		m.Trees = append(m.Trees, mk.SKStump(0, 1, 2, 3))
	}
	vf.Assume(change == 3 || priors == m.Groups())
	e, err := mk.LoadSK(m.Bytes())
	ok := init == want[0] && class == want[1] && tree == want[2]
	if init == "LogOddsEstimator" {
		ok = ok && priors == 1
	} else {
		ok = ok && priors == m.Groups()
	}
	refused(e, err, ok, "an unknown class, or priors that contradict it, are refused")
}
