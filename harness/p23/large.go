package p23

import (
	"github.com/dmitryikh/leaves/internal/pickle"
	"github.com/dmitryikh/leaves/zzverif/vf"
)

// HLong : trees of 300 (thorough: 2500) nodes; one record and one value of arbitrary bytes at the start, around the 256th or at
// the end.
func HLong() {
	vf.Steps(100000000)
	n := 300
	if vf.Tier() > 0 {
		n = 2500
	}
	nb, vb := vf.Choose("node order", 2) == 1, vf.Choose("value order", 2) == 1
	at := []int{0, 72, 73, 74, 127, 255, 256, n - 1}[vf.Choose("at", 8)]
	nodes, values := make([]byte, 56*n), make([]byte, 8*n)
	for i := range nodes {
		nodes[i] = byte(i % 251)
	}
	for i := range values {
		values[i] = byte(i%239 + 1)
	}
	copy(nodes[56*at:], some(56))
	copy(values[8*at:], some(8))
	t, err := parseTree(tree(n, array(record(order(nb)), raw(nodes), n), array(dtype("f8", order(vb)), raw(values), n, 1, 1)))
	vf.Assert(err == nil && len(t.Nodes) == n && len(t.Values) == n, "every node and value is decoded")
	for i := 0; i < n; i++ {
		b, d := nodes[56*i:56*i+56], &t.Nodes[i]
		vf.Assert(d.LeftChild == int(word(b, nb)) && d.RightChild == int(word(b[8:], nb)) && d.Feature == int(word(b[16:], nb)), "the integers of a node record")
		vf.Assert(vf.SameBits(d.Threshold, float(b[24:], nb)), "the threshold of a node record")
		vf.Assert(vf.SameBits(d.Impurity, float(b[32:], nb)) && d.NNodeSamples == int(word(b[40:], nb)) && vf.SameBits(d.WeightedNNodeSamples, float(b[48:], nb)), "the statistics of a node record")
		vf.Assert(vf.SameBits(t.Values[i], float(values[8*i:], vb)), "the value of a node")
	}
}

// HManyClasses : a model of 300 classes; one label and one prior of arbitrary bytes.
func HManyClasses() {
	const classes = 300
	vf.Steps(60000000)
	big := vf.Choose("order", 2) == 1
	at := []int{0, 255, 256, classes - 1}[vf.Choose("at", 4)]
	labels, priors := make([]byte, 8*classes), make([]byte, 8*classes)
	for i := range labels {
		labels[i], priors[i] = byte(i%251), byte(i%241+1)
	}
	copy(labels[8*at:], some(8))
	copy(priors[8*at:], some(8))
	var m pickle.SklearnGradientBoosting
	err := pickle.ParseClass(&m, model(classes, classes, func(d, init pickle.Dict) {
		d["classes_"] = array(dtype("i8", "<"), raw(labels), classes)
		init["priors"] = array(dtype("f8", order(big)), raw(priors), classes)
	}))
	vf.Assert(err == nil && len(m.Classes) == classes && len(m.InitEstimator.Prior) == classes, "every label and prior is decoded")
	for i := 0; i < classes; i++ {
		vf.Assert(m.Classes[i] == int(word(labels[8*i:], false)), "a class label")
		vf.Assert(vf.SameBits(m.InitEstimator.Prior[i], float(priors[8*i:], big)), "a prior")
	}
}
