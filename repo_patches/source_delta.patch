From 178a07343d53a753d1202d4de773d7b1e79b220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 01/31] fix: name the exponential transformation instead of
 panicking or calling it logistic

---
 transformation/exponential.go    | 2 +-
 transformation/transformation.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/transformation/exponential.go b/transformation/exponential.go
index 87c1195..14491df 100644
--- a/transformation/exponential.go
+++ b/transformation/exponential.go
@@ -25,6 +25,6 @@ func (t *TransformExponential) Type() TransformType {
 }
 
 func (t *TransformExponential) Name() string {
-	return Logistic.Name()
+	return Exponential.Name()
 }
 
diff --git a/transformation/transformation.go b/transformation/transformation.go
index fe976eb..660e963 100644
--- a/transformation/transformation.go
+++ b/transformation/transformation.go
@@ -34,6 +34,7 @@ func (t TransformType) Name() string {
 		"logistic",
 		"softmax",
 		"leaf_index",
+		"exponential",
 	}
 	if t < Raw || t > Last {
 		return "unknown"
-- 
2.43.0


From 3fa5b4f48eeb27e3f98527bda8274d06e9772060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:28 +0000
Subject: [PATCH 02/31] fix: keep softmax finite for large and very negative
 scores

---
 util/util.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 5aa0081..289fb21 100644
--- a/util/util.go
+++ b/util/util.go
@@ -259,9 +259,16 @@ func SigmoidFloat64SliceInplace(vec []float64) {
 }
 
 func SoftmaxFloat64Slice(rawValues []float64, outputValues []float64, startIndex int) {
+	// shift by the maximum so that math.Exp neither overflows nor vanishes for all values
+	max := math.Inf(-1)
+	for _, v := range rawValues {
+		if v > max {
+			max = v
+		}
+	}
 	sum := 0.0
 	for i, v := range rawValues {
-		exp := math.Exp(v)
+		exp := math.Exp(v - max)
 		outputValues[startIndex+i] = exp
 		sum += exp
 	}
-- 
2.43.0


From 1330fb67e63623b0ce44465068d219880b704796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:03 +0000
Subject: [PATCH 03/31] fix: report one feature, not none, for single-feature
 models

---
 lgensemble.go | 2 +-
 xgensemble.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgensemble.go b/lgensemble.go
index c45ba2c..18f0143 100644
--- a/lgensemble.go
+++ b/lgensemble.go
@@ -27,7 +27,7 @@ func (e *lgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *lgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
diff --git a/xgensemble.go b/xgensemble.go
index 35e3c51..2396e72 100644
--- a/xgensemble.go
+++ b/xgensemble.go
@@ -26,7 +26,7 @@ func (e *xgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *xgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
-- 
2.43.0


From f8ef8f54966d02f08a81481b102f92d36ae2ebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 04/31] fix: give single-leaf scikit-learn trees one leaf, not
 two

---
 skensemble_io.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/skensemble_io.go b/skensemble_io.go
index 18f9159..973bc99 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -29,15 +29,7 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 	}
 
 	if numNodes == 0 {
-		// special case
-		// we mimic decision rule but left and right childs lead to the same result
-		t.nodes = make([]lgNode, 0, 1)
-		node := numericalNode(0, 0, 0.0, 0)
-		node.Flags |= leftLeaf
-		node.Flags |= rightLeaf
-		node.Left = uint32(len(t.leafValues))
-		node.Right = uint32(len(t.leafValues))
-		t.nodes = append(t.nodes, node)
+		// special case - constant value tree
 		t.leafValues = append(t.leafValues, tree.Tree.Values[0]*scale+base)
 		return t, nil
 	}
-- 
2.43.0


From 4c7790acb28acef0e4d7af42dbce4991d372ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 05/31] fix: skip blank lines before a section and accept a
 last line without line feed

---
 util/util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/util.go b/util/util.go
index 289fb21..b7459ad 100644
--- a/util/util.go
+++ b/util/util.go
@@ -33,11 +33,11 @@ func ReadParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
 	// skip empty
 	for {
 		line, err = reader.ReadString('\n')
-		if err != nil {
+		line = strings.TrimSpace(line)
+		if err != nil && (err != io.EOF || line == "") {
 			return nil, err
 		}
-		line = strings.TrimSpace(line)
-		if line != "\n" {
+		if line != "" {
 			break
 		}
 	}
-- 
2.43.0


From b03052cca86b8ade068624478398e1e57080ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 06/31] fix: report a failure to write a matrix to a file

---
 mat/mat_io.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index db3ad42..bf28447 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -282,6 +282,9 @@ func (m *DenseMat) ToCsvFile(filename string, delimiter string) error {
 	defer f.Close()
 
 	buf := bufio.NewWriter(f)
-	defer buf.Flush()
-	return m.WriteStr(buf, delimiter)
+	err = m.WriteStr(buf, delimiter)
+	if err != nil {
+		return err
+	}
+	return buf.Flush()
 }
-- 
2.43.0


From f542ba4657ee932b29781c99130cc35105c2f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 07/31] fix: decode all escapes that Python writes in protocol
 0 strings

---
 internal/pickle/decoder.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 5653c78..453123c 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -1,7 +1,6 @@
 package pickle
 
 import (
-	"bytes"
 	"fmt"
 	"io"
 	"strconv"
@@ -192,12 +191,22 @@ func (d *Decoder) readLine() ([]byte, error) {
 	return line, nil
 }
 
+// decodeUnicode resolves \u00XX escapes. Python escapes at least backslash and
+// line feed this way, newer versions also \0, \r and \x1a
 func decodeUnicode(rawString []byte) Unicode {
-	// \u000a == \n
-	ret := bytes.Replace(rawString, []byte{'\\', 'u', '0', '0', '0', 'a'}, []byte{'\n'}, -1)
-	// \u005c' == \\
-	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '5', 'c'}, []byte{'\\'}, -1)
-	return Unicode(ret)
+	ret := make(Unicode, 0, len(rawString))
+	for i := 0; i < len(rawString); i++ {
+		if rawString[i] == '\\' && i+6 <= len(rawString) && rawString[i+1] == 'u' {
+			char, err := strconv.ParseUint(string(rawString[i+2:i+6]), 16, 8)
+			if err == nil {
+				ret = append(ret, byte(char))
+				i += 5
+				continue
+			}
+		}
+		ret = append(ret, rawString[i])
+	}
+	return ret
 }
 
 // Codes below are taken from https://github.com/kisielk/og-rek
-- 
2.43.0


From b52256e9409b893a5489a1ca82b02b8e2856d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 08/31] fix: keep memo entries of lists and objects up to date
 while they are filled

---
 internal/pickle/decoder.go | 10 ++++------
 internal/pickle/machine.go | 14 ++++++++++++++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 453123c..dad0a95 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -105,13 +105,12 @@ loop:
 			d.machine.push(list)
 		case opAppend:
 			el := d.machine.pop()
-			obj := d.machine.pop()
-			list, err := toList(obj, -1)
+			list, err := toList(d.machine.back(), -1)
 			if err != nil {
 				return nil, err
 			}
 			list = append(list, el)
-			d.machine.push(list)
+			d.machine.replaceBack(list)
 		case opUnicode:
 			line, err := d.readLine()
 			if err != nil {
@@ -132,9 +131,8 @@ loop:
 			d.machine.push(None{})
 		case opBuild:
 			args := d.machine.pop()
-			obj := d.machine.pop()
-			b := Build{Object: obj, Args: args}
-			d.machine.push(b)
+			b := Build{Object: d.machine.back(), Args: args}
+			d.machine.replaceBack(b)
 		case opDict:
 			objs := d.machine.popMark()
 			nObjs := len(objs)
diff --git a/internal/pickle/machine.go b/internal/pickle/machine.go
index 2b9c498..4a66368 100644
--- a/internal/pickle/machine.go
+++ b/internal/pickle/machine.go
@@ -7,6 +7,8 @@ type machine struct {
 	stack  []interface{}
 	memory map[string]interface{}
 	marks  []int
+	// keys[i] are names under which stack[i] is stored in memory
+	keys [][]string
 }
 
 func newPickleMachine() *machine {
@@ -25,25 +27,37 @@ func (m *machine) popMark() []interface{} {
 	m.marks = m.marks[:len(m.marks)-1]
 	markedObjects := m.stack[idx:len(m.stack)]
 	m.stack = m.stack[:idx]
+	m.keys = m.keys[:idx]
 	return markedObjects
 }
 
 func (m *machine) push(obj interface{}) {
 	m.stack = append(m.stack, obj)
+	m.keys = append(m.keys, nil)
 }
 
 func (m *machine) pop() interface{} {
 	obj := m.stack[len(m.stack)-1]
 	m.stack = m.stack[:len(m.stack)-1]
+	m.keys = m.keys[:len(m.keys)-1]
 	return obj
 }
 
+// replaceBack replaces the top most object by its updated version, in memory too
+func (m *machine) replaceBack(obj interface{}) {
+	m.stack[len(m.stack)-1] = obj
+	for _, key := range m.keys[len(m.keys)-1] {
+		m.memory[key] = obj
+	}
+}
+
 func (m *machine) back() interface{} {
 	return m.stack[len(m.stack)-1]
 }
 
 func (m *machine) putMemory(key string) {
 	m.memory[key] = m.stack[len(m.stack)-1]
+	m.keys[len(m.keys)-1] = append(m.keys[len(m.keys)-1], key)
 }
 
 func (m *machine) getMemory(key string) interface{} {
-- 
2.43.0


From 51b56aa4f194af6d3f722009aca3bd82c61c0213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 09/31] fix: refuse numpy arrays whose bytes do not correspond
 to the shape

---
 internal/pickle/numpy.go   | 16 ++++++++++++++++
 internal/pickle/sklearn.go | 29 ++++++++++++++++++++++-------
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 85c98bb..371363d 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -85,6 +85,22 @@ func (a *NumpyArrayRaw) Build(build Build) (err error) {
 	return
 }
 
+// Iterate iterates over raw data elements of `length` bytes and call `parse` function on each. Number of elements should
+// correspond to the shape
+func (a *NumpyArrayRaw) Iterate(length int, parse NumpyElementFunc) error {
+	size := length
+	for _, dim := range a.Shape {
+		if dim < 0 || (dim > 0 && size > len(a.Data)/dim) {
+			return fmt.Errorf("unexpected raw bytes length (got %d) for shape %v", len(a.Data), a.Shape)
+		}
+		size *= dim
+	}
+	if len(a.Data) != size {
+		return fmt.Errorf("unexpected raw bytes length (got %d) for shape %v", len(a.Data), a.Shape)
+	}
+	return a.Data.Iterate(length, parse)
+}
+
 type NumpyRawBytes []byte
 type NumpyElementFunc func([]byte) error
 
diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index fb238e0..d7c1cf4 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -72,7 +72,7 @@ func (t *SklearnTree) Reduce(reduce Reduce) (err error) {
 		return err
 	}
 
-	if len(arr.Shape) != 1 && arr.Shape[0] != t.NOutputs {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NOutputs {
 		return fmt.Errorf("expected 1 dim array with %d values (got: %v)", t.NOutputs, arr.Shape)
 	}
 	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
@@ -80,7 +80,7 @@ func (t *SklearnTree) Reduce(reduce Reduce) (err error) {
 	}
 
 	t.Classes = make([]int, 0, t.NOutputs)
-	err = arr.Data.Iterate(8, func(b []byte) error {
+	err = arr.Iterate(8, func(b []byte) error {
 		t.Classes = append(t.Classes, int(binary.LittleEndian.Uint64(b)))
 		return nil
 	})
@@ -111,7 +111,10 @@ func (t *SklearnTree) Build(build Build) (err error) {
 	if arr.Type.Type != "V56" {
 		return fmt.Errorf("expected arr.Type.Type = \"V56\" (got: %s)", arr.Type.Type)
 	}
-	err = arr.Data.Iterate(56, func(b []byte) error {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NNodes {
+		return fmt.Errorf("expected 1 dim array with %d nodes (got: %v)", t.NNodes, arr.Shape)
+	}
+	err = arr.Iterate(56, func(b []byte) error {
 		t.Nodes = append(t.Nodes, SklearnNodeFromBytes(b))
 		return nil
 	})
@@ -130,7 +133,10 @@ func (t *SklearnTree) Build(build Build) (err error) {
 	if arr.Type.Type != "f8" {
 		return fmt.Errorf("expected ndtype \"f8\" (got: %#v)", arr.Type)
 	}
-	err = arr.Data.Iterate(8, func(b []byte) error {
+	if len(arr.Shape) != 3 || arr.Shape[0] != t.NNodes || arr.Shape[1] != 1 || arr.Shape[2] != 1 {
+		return fmt.Errorf("expected one value for each of %d nodes (got: %v)", t.NNodes, arr.Shape)
+	}
+	err = arr.Iterate(8, func(b []byte) error {
 		t.Values = append(t.Values, util.Float64FromBytes(b, arr.Type.LittleEndinan))
 		return nil
 	})
@@ -179,6 +185,9 @@ func (t *SklearnDecisionTreeRegressor) Build(build Build) (err error) {
 	if nClassesRaw.Type.Type != "i8" || !nClassesRaw.Type.LittleEndinan {
 		return fmt.Errorf("expected little endian i8, got (%#v)", nClassesRaw.Type)
 	}
+	if len(nClassesRaw.Data) != 8 {
+		return fmt.Errorf("expected 8 bytes (got %d)", len(nClassesRaw.Data))
+	}
 	t.NClasses = int(binary.LittleEndian.Uint64(nClassesRaw.Data))
 	t.MaxFeatures, err = dict.toInt("max_features_")
 	if err != nil {
@@ -268,7 +277,7 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 		return err
 	}
 
-	if len(arr.Shape) != 1 && arr.Shape[0] != t.NClasses {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NClasses {
 		return fmt.Errorf("expected 1 dim array with %d values (got: %v)", t.NClasses, arr.Shape)
 	}
 	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
@@ -276,7 +285,7 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 	}
 
 	t.Classes = make([]int, 0, t.NClasses)
-	err = arr.Data.Iterate(8, func(b []byte) error {
+	err = arr.Iterate(8, func(b []byte) error {
 		t.Classes = append(t.Classes, int(binary.LittleEndian.Uint64(b)))
 		return nil
 	})
@@ -363,6 +372,9 @@ func (e *SKlearnInitEstimator) Build(build Build) (err error) {
 		if numpyScalar.Type.Type != "f8" {
 			return fmt.Errorf("expected f8, got (%#v)", numpyScalar.Type)
 		}
+		if len(numpyScalar.Data) != 8 {
+			return fmt.Errorf("expected 8 bytes (got %d)", len(numpyScalar.Data))
+		}
 		e.Prior = append(e.Prior, util.Float64FromBytes(numpyScalar.Data, numpyScalar.Type.LittleEndinan))
 	} else if e.Name == "PriorProbabilityEstimator" {
 		dict, err := toDict(build.Args)
@@ -381,10 +393,13 @@ func (e *SKlearnInitEstimator) Build(build Build) (err error) {
 		if numpyArray.Type.Type != "f8" {
 			return fmt.Errorf("expected f8, got (%#v)", numpyArray.Type)
 		}
-		numpyArray.Data.Iterate(8, func(bytes []byte) error {
+		err = numpyArray.Iterate(8, func(bytes []byte) error {
 			e.Prior = append(e.Prior, util.Float64FromBytes(bytes, numpyArray.Type.LittleEndinan))
 			return nil
 		})
+		if err != nil {
+			return err
+		}
 	} else {
 		return fmt.Errorf("unknown init estimator class: %s", e.Name)
 	}
-- 
2.43.0


From 6e68e094987f0919014c927eee902833c7f798de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 10/31] fix: take byte order of numpy records from their fields

---
 internal/pickle/numpy.go   | 25 +++++++++++++++++++++++++
 internal/pickle/sklearn.go | 22 +++++++++++++---------
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 371363d..68c6b59 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -174,6 +174,31 @@ func (d *NumpyDType) Build(build Build) error {
 		return err
 	}
 	d.LittleEndinan = endian[0] == '<'
+
+	// structured types have no byte order on their own, it's defined by types of the fields
+	fields, ok := tuple[4].(Dict)
+	if !ok {
+		return nil
+	}
+	nBigEndian := 0
+	for name, fieldObj := range fields {
+		field, ok := fieldObj.(Tuple)
+		if !ok || len(field) == 0 {
+			return fmt.Errorf("unexpected description of field \"%s\": %#v", name, fieldObj)
+		}
+		fieldType := NumpyDType{}
+		err = ParseClass(&fieldType, field[0])
+		if err != nil {
+			return err
+		}
+		if !fieldType.LittleEndinan {
+			nBigEndian++
+		}
+	}
+	if nBigEndian != 0 && nBigEndian != len(fields) {
+		return fmt.Errorf("fields with different byte order are not supported")
+	}
+	d.LittleEndinan = nBigEndian == 0
 	return nil
 }
 
diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index d7c1cf4..5adb109 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -22,23 +22,27 @@ type SklearnNode struct {
 // The rule described in https://github.com/scikit-learn/scikit-learn/blob/master/sklearn/tree/_tree.pyx#L70 (NODE_DTYPE)
 // 'names': ['left_child', 'right_child', 'feature', 'threshold', 'impurity', 'n_node_samples', 'weighted_n_node_samples'],
 // 'formats': [np.intp, np.intp, np.intp, np.float64, np.float64, np.intp, np.float64]
-func SklearnNodeFromBytes(bytes []byte) SklearnNode {
+func SklearnNodeFromBytes(bytes []byte, littleEndian bool) SklearnNode {
+	var order binary.ByteOrder = binary.LittleEndian
+	if !littleEndian {
+		order = binary.BigEndian
+	}
 	offset := 0
 	size := 8
 	node := SklearnNode{}
-	node.LeftChild = int(binary.LittleEndian.Uint64(bytes[offset : offset+size]))
+	node.LeftChild = int(order.Uint64(bytes[offset : offset+size]))
 	offset += size
-	node.RightChild = int(binary.LittleEndian.Uint64(bytes[offset : offset+size]))
+	node.RightChild = int(order.Uint64(bytes[offset : offset+size]))
 	offset += size
-	node.Feature = int(binary.LittleEndian.Uint64(bytes[offset : offset+size]))
+	node.Feature = int(order.Uint64(bytes[offset : offset+size]))
 	offset += size
-	node.Threshold = util.Float64FromBytes(bytes[offset:offset+size], true)
+	node.Threshold = util.Float64FromBytes(bytes[offset:offset+size], littleEndian)
 	offset += size
-	node.Impurity = util.Float64FromBytes(bytes[offset:offset+size], true)
+	node.Impurity = util.Float64FromBytes(bytes[offset:offset+size], littleEndian)
 	offset += size
-	node.NNodeSamples = int(binary.LittleEndian.Uint64(bytes[offset : offset+size]))
+	node.NNodeSamples = int(order.Uint64(bytes[offset : offset+size]))
 	offset += size
-	node.WeightedNNodeSamples = util.Float64FromBytes(bytes[offset:offset+size], true)
+	node.WeightedNNodeSamples = util.Float64FromBytes(bytes[offset:offset+size], littleEndian)
 	return node
 }
 
@@ -115,7 +119,7 @@ func (t *SklearnTree) Build(build Build) (err error) {
 		return fmt.Errorf("expected 1 dim array with %d nodes (got: %v)", t.NNodes, arr.Shape)
 	}
 	err = arr.Iterate(56, func(b []byte) error {
-		t.Nodes = append(t.Nodes, SklearnNodeFromBytes(b))
+		t.Nodes = append(t.Nodes, SklearnNodeFromBytes(b, arr.Type.LittleEndinan))
 		return nil
 	})
 	if err != nil {
-- 
2.43.0


From 3b647ea6bb74bbf379de31ba39b9a0ec339b3900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 11/31] fix: refuse LightGBM trees with arrays of wrong length
 instead of panic

---
 lgensemble_io.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index c25aa45..92f3371 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -125,6 +125,9 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 	if err != nil {
 		return t, err
 	}
+	if len(leafValues) != numLeaves {
+		return t, fmt.Errorf("expected %d elements in leaf_value (got %d)", numLeaves, len(leafValues))
+	}
 	t.leafValues = leafValues
 
 	if numLeaves == 1 {
@@ -153,6 +156,12 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 		return t, err
 	}
 
+	for _, length := range []int{len(leftChilds), len(rightChilds), len(decisionTypes), len(splitFeatures), len(thresholds)} {
+		if length != numNodes {
+			return t, fmt.Errorf("expected description of %d nodes (got %d)", numNodes, length)
+		}
+	}
+
 	catThresholds := make([]uint32, 0)
 	catBoundaries := make([]uint32, 0)
 	if numCategorical > 0 {
@@ -197,8 +206,14 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 			return node, err
 		}
 
+		if !(thresholds[idx] >= 0 && thresholds[idx] < float64(len(catBoundaries)-1)) {
+			return node, fmt.Errorf("no categories with index %f", thresholds[idx])
+		}
 		catIdx := uint32(thresholds[idx])
 		catType := uint8(0)
+		if catBoundaries[catIdx] > catBoundaries[catIdx+1] || catBoundaries[catIdx+1] > uint32(len(catThresholds)) {
+			return node, fmt.Errorf("wrong cat_boundaries for categories with index %d", catIdx)
+		}
 		bitsetSize := catBoundaries[catIdx+1] - catBoundaries[catIdx]
 		thresholdSlice := catThresholds[catBoundaries[catIdx]:catBoundaries[catIdx+1]]
 		nBits := util.NumberOfSetBits(thresholdSlice)
-- 
2.43.0


From 6155b73d85f1155b5f57944998913ee90a977b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 12/31] fix: refuse trees with wrong references to children
 instead of panic or endless loop

---
 lgensemble_io.go | 17 +++++++++++++++++
 lgtree.go        | 27 +++++++++++++++++++++++++++
 skensemble_io.go | 14 ++++++++++++++
 xgensemble_io.go | 11 +++++++++++
 4 files changed, 69 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 92f3371..de7a487 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -162,6 +162,20 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 		}
 	}
 
+	for i := 0; i < numNodes; i++ {
+		for _, child := range []int32{leftChilds[i], rightChilds[i]} {
+			if child < 0 && int(^child) >= numLeaves {
+				return t, fmt.Errorf("leaf index %d is out of range (number of leaves is %d)", ^child, numLeaves)
+			}
+		}
+	}
+	err = checkTreeStructure(numNodes, func(idx int) (int, int) {
+		return int(leftChilds[idx]), int(rightChilds[idx])
+	})
+	if err != nil {
+		return t, err
+	}
+
 	catThresholds := make([]uint32, 0)
 	catBoundaries := make([]uint32, 0)
 	if numCategorical > 0 {
@@ -301,6 +315,9 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 		origNodeIdxStack = origNodeIdxStack[:len(origNodeIdxStack)-1]
 		convNodeIdxStack = convNodeIdxStack[:len(convNodeIdxStack)-1]
 	}
+	if len(t.nodes) != numNodes {
+		return t, fmt.Errorf("only %d of %d nodes are reachable from the root", len(t.nodes), numNodes)
+	}
 	return t, nil
 }
 
diff --git a/lgtree.go b/lgtree.go
index c2d9894..796afb2 100644
--- a/lgtree.go
+++ b/lgtree.go
@@ -1,6 +1,7 @@
 package leaves
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/dmitryikh/leaves/util"
@@ -131,3 +132,29 @@ func numericalNode(feature uint32, missingType uint8, threshold float64, default
 	node.Threshold = threshold
 	return node
 }
+
+// checkTreeStructure checks that nodes refer to existing nodes and there is the only way to reach a node from the root.
+// `children` returns indices of child nodes, negative index means that there is no child node
+func checkTreeStructure(numNodes int, children func(idx int) (int, int)) error {
+	visited := make([]bool, numNodes)
+	stack := []int{0}
+	for len(stack) > 0 {
+		idx := stack[len(stack)-1]
+		stack = stack[:len(stack)-1]
+		if idx >= numNodes {
+			return fmt.Errorf("node index %d is out of range (number of nodes is %d)", idx, numNodes)
+		}
+		if visited[idx] {
+			return fmt.Errorf("node %d has more than one parent", idx)
+		}
+		visited[idx] = true
+		left, right := children(idx)
+		if left >= 0 {
+			stack = append(stack, left)
+		}
+		if right >= 0 {
+			stack = append(stack, right)
+		}
+	}
+	return nil
+}
diff --git a/skensemble_io.go b/skensemble_io.go
index 973bc99..be19cd9 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -34,10 +34,24 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 		return t, nil
 	}
 
+	err := checkTreeStructure(len(tree.Tree.Nodes), func(idx int) (int, int) {
+		refNode := &tree.Tree.Nodes[idx]
+		if refNode.LeftChild < 0 {
+			return -1, -1
+		}
+		return refNode.LeftChild, refNode.RightChild
+	})
+	if err != nil {
+		return t, err
+	}
+
 	// Numerical only
 	createNode := func(idx int) (lgNode, error) {
 		node := lgNode{}
 		refNode := &tree.Tree.Nodes[idx]
+		if refNode.LeftChild < 0 || refNode.RightChild < 0 {
+			return node, fmt.Errorf("node %d doesn't have two children", idx)
+		}
 		missingType := uint8(0)
 		defaultType := uint8(0)
 		node = numericalNode(uint32(refNode.Feature), missingType, refNode.Threshold, defaultType)
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 5102dfc..08b647b 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -50,6 +50,17 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		return t, nil
 	}
 
+	err := checkTreeStructure(len(origTree.Nodes), func(idx int) (int, int) {
+		origNode := &origTree.Nodes[idx]
+		if xgIsLeaf(origNode) {
+			return -1, -1
+		}
+		return int(origNode.CLeft), int(origNode.CRight)
+	})
+	if err != nil {
+		return t, err
+	}
+
 	createNode := func(origNode *xgbin.Node) (lgNode, error) {
 		node := lgNode{}
 		// count nan as missing value
-- 
2.43.0


From 85eb2759099d1f6a045f2eba13a1f7d96391a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 13/31] fix: refuse LightGBM and XGBoost trees with features
 out of range

---
 lgensemble_io.go |  6 ++++++
 lgtree.go        | 10 ++++++++++
 xgensemble_io.go |  3 +++
 3 files changed, 19 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index de7a487..2df29fe 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -414,6 +414,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	e.Trees = make([]lgTree, 0, nTrees)
 	for i := 0; i < nTrees; i++ {
 		tree, err := lgTreeFromReader(reader)
+		if err == nil {
+			err = tree.checkFeatures(e.NFeatures())
+		}
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
@@ -692,6 +695,9 @@ func LGEnsembleFromJSON(reader io.Reader, loadTransformation bool) (*Ensemble, e
 	e.Trees = make([]lgTree, 0, nTrees)
 	for i := 0; i < nTrees; i++ {
 		tree, err := unmarshalTree(data.Trees[i])
+		if err == nil {
+			err = tree.checkFeatures(e.NFeatures())
+		}
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
diff --git a/lgtree.go b/lgtree.go
index 796afb2..9827d8a 100644
--- a/lgtree.go
+++ b/lgtree.go
@@ -158,3 +158,13 @@ func checkTreeStructure(numNodes int, children func(idx int) (int, int)) error {
 	}
 	return nil
 }
+
+// checkFeatures checks that nodes of the tree use only features with index less than `numFeatures`
+func (t *lgTree) checkFeatures(numFeatures int) error {
+	for i := range t.nodes {
+		if int64(t.nodes[i].Feature) >= int64(numFeatures) {
+			return fmt.Errorf("feature index %d is out of range (number of features is %d)", t.nodes[i].Feature, numFeatures)
+		}
+	}
+	return nil
+}
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 08b647b..6706b23 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -251,6 +251,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	e.Trees = make([]lgTree, 0, nTrees)
 	for i := int32(0); i < nTrees; i++ {
 		tree, err := xgTreeFromTreeModel(origModel.Trees[i], header.Param.NumFeatures)
+		if err == nil {
+			err = tree.checkFeatures(e.NFeatures())
+		}
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
-- 
2.43.0


From 013d8ab6c1d21aea2d54082c0414ed7dec6d7388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 14/31] fix: take number of features of scikit-learn models
 from their trees

---
 internal/pickle/sklearn.go | 15 ++++++++++-----
 skensemble_io.go           |  9 +++++++--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index 5adb109..393d16f 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -48,11 +48,12 @@ func SklearnNodeFromBytes(bytes []byte, littleEndian bool) SklearnNode {
 
 // SklearnTree represents parsed tree struct
 type SklearnTree struct {
-	NOutputs int
-	Classes  []int
-	NNodes   int
-	Nodes    []SklearnNode
-	Values   []float64
+	NFeatures int
+	NOutputs  int
+	Classes   []int
+	NNodes    int
+	Nodes     []SklearnNode
+	Values    []float64
 }
 
 func (t *SklearnTree) Reduce(reduce Reduce) (err error) {
@@ -65,6 +66,10 @@ func (t *SklearnTree) Reduce(reduce Reduce) (err error) {
 	}
 
 	var ok bool
+	t.NFeatures, ok = reduce.Args[0].(int)
+	if !ok {
+		return fmt.Errorf("expected int (got %T)", reduce.Args[0])
+	}
 	t.NOutputs, ok = reduce.Args[2].(int)
 	if !ok {
 		return fmt.Errorf("expected int (got %T)", reduce.Args[2])
diff --git a/skensemble_io.go b/skensemble_io.go
index be19cd9..19aca72 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -138,8 +138,6 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		e.nRawOutputGroups = 1
 	}
 
-	e.MaxFeatureIdx = gbdt.MaxFeatures - 1
-
 	nTrees := gbdt.NEstimators
 	if nTrees == 0 {
 		return nil, fmt.Errorf("no trees in file")
@@ -149,6 +147,10 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		return nil, fmt.Errorf("unexpected number of trees (NEstimators = %d, nRawOutputGroups = %d, len(Estimatoers) = %d", gbdt.NEstimators, e.nRawOutputGroups, len(gbdt.Estimators))
 	}
 
+	// NOTE: gbdt.MaxFeatures is not suitable here. It's number of features considered when looking for the best split
+	numFeatures := gbdt.Estimators[0].Tree.NFeatures
+	e.MaxFeatureIdx = numFeatures - 1
+
 	scale := gbdt.LearningRate
 	base := make([]float64, e.nRawOutputGroups)
 	if gbdt.InitEstimator.Name == "LogOddsEstimator" {
@@ -168,6 +170,9 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	for i := 0; i < gbdt.NEstimators; i++ {
 		for j := 0; j < e.nRawOutputGroups; j++ {
 			treeNum := i*e.nRawOutputGroups + j
+			if gbdt.Estimators[treeNum].Tree.NFeatures != numFeatures {
+				return nil, fmt.Errorf("unexpected number of features in %d tree (got %d, expected %d)", treeNum, gbdt.Estimators[treeNum].Tree.NFeatures, numFeatures)
+			}
 			tree, err := lgTreeFromSklearnDecisionTreeRegressor(gbdt.Estimators[treeNum], scale, base[j])
 			if err != nil {
 				return nil, fmt.Errorf("error while creating %d tree: %s", treeNum, err.Error())
-- 
2.43.0


From a4a15d7dd7860af0812ccb3761a30baecaf1b4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 15/31] fix: refuse scikit-learn models with wrong counts,
 features or priors instead of panic

---
 skensemble_io.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/skensemble_io.go b/skensemble_io.go
index 19aca72..ee8ce70 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -45,6 +45,12 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 		return t, err
 	}
 
+	for idx, refNode := range tree.Tree.Nodes {
+		if refNode.LeftChild >= 0 && (refNode.Feature < 0 || refNode.Feature >= tree.Tree.NFeatures) {
+			return t, fmt.Errorf("feature index %d of node %d is out of range (number of features is %d)", refNode.Feature, idx, tree.Tree.NFeatures)
+		}
+	}
+
 	// Numerical only
 	createNode := func(idx int) (lgNode, error) {
 		node := lgNode{}
@@ -133,13 +139,16 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		return nil, fmt.Errorf("error while parsing gradient boosting class: %s", err.Error())
 	}
 
+	if gbdt.NClasses < 1 {
+		return nil, fmt.Errorf("number of classes should be > 0 (got %d)", gbdt.NClasses)
+	}
 	e.nRawOutputGroups = gbdt.NClasses
 	if e.nRawOutputGroups == 2 {
 		e.nRawOutputGroups = 1
 	}
 
 	nTrees := gbdt.NEstimators
-	if nTrees == 0 {
+	if nTrees < 1 {
 		return nil, fmt.Errorf("no trees in file")
 	}
 
@@ -154,6 +163,9 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	scale := gbdt.LearningRate
 	base := make([]float64, e.nRawOutputGroups)
 	if gbdt.InitEstimator.Name == "LogOddsEstimator" {
+		if len(gbdt.InitEstimator.Prior) != 1 {
+			return nil, fmt.Errorf("len(gbdt.InitEstimator.Prior) != 1")
+		}
 		for i := 0; i < e.nRawOutputGroups; i++ {
 			base[i] = gbdt.InitEstimator.Prior[0]
 		}
-- 
2.43.0


From d873e6527aafc7e59c697378990cf01a11fb245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 16/31] fix: check number of nodes and categories of LightGBM
 JSON trees

---
 lgensemble_io.go | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 2df29fe..3054239 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -550,7 +550,10 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		if nBits == 0 {
 			return node, fmt.Errorf("no bits set")
 		} else if nBits == 1 {
-			value, err := strconv.Atoi(tokens[0])
+			value, err := strconv.ParseInt(tokens[0], 10, 32)
+			if err == nil && value < 0 {
+				err = fmt.Errorf("negative category")
+			}
 			if err != nil {
 				return node, fmt.Errorf("can't convert %s: %s", tokens[0], err.Error())
 			}
@@ -559,11 +562,14 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		} else {
 			thresholdValues := make([]int, len(tokens))
 			for i, valueStr := range tokens {
-				value, err := strconv.Atoi(valueStr)
+				value, err := strconv.ParseInt(valueStr, 10, 32)
+				if err == nil && value < 0 {
+					err = fmt.Errorf("negative category")
+				}
 				if err != nil {
 					return node, fmt.Errorf("can't convert %s: %s", valueStr, err.Error())
 				}
-				thresholdValues[i] = value
+				thresholdValues[i] = int(value)
 			}
 
 			bitset := util.ConstructBitset(thresholdValues)
@@ -572,6 +578,9 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 				catType = catSmall
 			} else {
 				// regular case with large bitset
+				if len(t.catBoundaries) == 0 {
+					return node, fmt.Errorf("categorical node in a tree with num_cat = 0")
+				}
 				catIdx = uint32(len(t.catBoundaries) - 1)
 				t.catThresholds = append(t.catThresholds, bitset...)
 				t.catBoundaries = append(t.catBoundaries, uint32(len(t.catThresholds)))
@@ -602,19 +611,17 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 	}
 
 	type StackData struct {
-		// pointer to parent's Left/RightChild field
-		parentPtr *uint32
+		// index of the parent in t.nodes (-1 for the root)
+		parentIdx int
+		isLeft    bool
 		nodeJSON  *lgNodeJSON
 	}
-	stack := make([]StackData, 0, numNodes)
+	stack := make([]StackData, 0)
 	if root, ok := treeJSON.Root.(*lgNodeJSON); ok {
-		stack = append(stack, StackData{nil, root})
+		stack = append(stack, StackData{-1, false, root})
 	} else {
 		return t, fmt.Errorf("unexpected type of Root: %T", treeJSON.Root)
 	}
-	// NOTE: we rely on fact that t.nodes won't be reallocated (`parentPtr` points to its data)
-	t.nodes = make([]lgNode, 0, numNodes)
-
 	for len(stack) > 0 {
 		stackData := stack[len(stack)-1]
 		stack = stack[:len(stack)-1]
@@ -622,13 +629,17 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		if err != nil {
 			return t, err
 		}
-		if stackData.parentPtr != nil {
-			*stackData.parentPtr = uint32(len(t.nodes))
+		if stackData.parentIdx >= 0 {
+			if stackData.isLeft {
+				t.nodes[stackData.parentIdx].Left = uint32(len(t.nodes))
+			} else {
+				t.nodes[stackData.parentIdx].Right = uint32(len(t.nodes))
+			}
 		}
 		t.nodes = append(t.nodes, node)
 		if node.Flags&leftLeaf == 0 {
 			if left, ok := stackData.nodeJSON.LeftChild.(*lgNodeJSON); ok {
-				stack = append(stack, StackData{&t.nodes[len(t.nodes)-1].Left, left})
+				stack = append(stack, StackData{len(t.nodes) - 1, true, left})
 			} else if _, ok := stackData.nodeJSON.LeftChild.(float64); ok {
 			} else {
 				return t, fmt.Errorf("unexpected left child type %T", stackData.nodeJSON.LeftChild)
@@ -636,13 +647,16 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		}
 		if node.Flags&rightLeaf == 0 {
 			if right, ok := stackData.nodeJSON.RightChild.(*lgNodeJSON); ok {
-				stack = append(stack, StackData{&t.nodes[len(t.nodes)-1].Right, right})
+				stack = append(stack, StackData{len(t.nodes) - 1, false, right})
 			} else if _, ok := stackData.nodeJSON.RightChild.(float64); ok {
 			} else {
 				return t, fmt.Errorf("unexpected right child type %T", stackData.nodeJSON.RightChild)
 			}
 		}
 	}
+	if len(t.nodes) != numNodes {
+		return t, fmt.Errorf("expected %d nodes (got %d)", numNodes, len(t.nodes))
+	}
 	return t, nil
 }
 
-- 
2.43.0


From 0017db62d6ff43d5b3895bca2b82ef3de075b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 17/31] fix: check counts in XGBoost models before use

---
 internal/xgbin/xgbin_io.go | 49 +++++++++++++++++++++++++++++++-------
 xgensemble_io.go           | 11 ++++++++-
 2 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/internal/xgbin/xgbin_io.go b/internal/xgbin/xgbin_io.go
index c2bd9fd..7aa2ff7 100644
--- a/internal/xgbin/xgbin_io.go
+++ b/internal/xgbin/xgbin_io.go
@@ -162,6 +162,24 @@ func ReadStruct(reader *bufio.Reader, dst interface{}) error {
 	return nil
 }
 
+// readByParts calls `read` for consecutive parts of the sequence with `size` elements. The size comes from the stream and
+// could be arbitrary large in malformed one, so memory should be allocated only when there are data for it
+func readByParts(size uint64, read func(partSize int) error) error {
+	const maxPartSize = 1 << 16
+	for size > 0 {
+		partSize := uint64(maxPartSize)
+		if size < partSize {
+			partSize = size
+		}
+		err := read(int(partSize))
+		if err != nil {
+			return err
+		}
+		size -= partSize
+	}
+	return nil
+}
+
 // ReadString - read ascii string from binary stream
 // from dmlc-core/include/dmlc/serializer.h
 func ReadString(reader *bufio.Reader) (string, error) {
@@ -173,12 +191,17 @@ func ReadString(reader *bufio.Reader) (string, error) {
 	if size == 0 {
 		return "", nil
 	}
-	bytes := make([]byte, size)
-	err = binary.Read(reader, binary.LittleEndian, &bytes)
+	str := make([]byte, 0)
+	err = readByParts(size, func(partSize int) error {
+		part := make([]byte, partSize)
+		err := binary.Read(reader, binary.LittleEndian, &part)
+		str = append(str, part...)
+		return err
+	})
 	if err != nil {
 		return "", err
 	}
-	return string(bytes), nil
+	return string(str), nil
 }
 
 // ReadFloat32Slice - read vector of floats from binary stream
@@ -192,8 +215,13 @@ func ReadFloat32Slice(reader *bufio.Reader) ([]float32, error) {
 	if size == 0 {
 		return nil, nil
 	}
-	vec := make([]float32, size)
-	err = binary.Read(reader, binary.LittleEndian, &vec)
+	vec := make([]float32, 0)
+	err = readByParts(size, func(partSize int) error {
+		part := make([]float32, partSize)
+		err := binary.Read(reader, binary.LittleEndian, &part)
+		vec = append(vec, part...)
+		return err
+	})
 	if err != nil {
 		return nil, err
 	}
@@ -211,8 +239,13 @@ func ReadInt32Slice(reader *bufio.Reader) ([]int32, error) {
 	if size == 0 {
 		return nil, nil
 	}
-	vec := make([]int32, size)
-	err = binary.Read(reader, binary.LittleEndian, &vec)
+	vec := make([]int32, 0)
+	err = readByParts(size, func(partSize int) error {
+		part := make([]int32, partSize)
+		err := binary.Read(reader, binary.LittleEndian, &part)
+		vec = append(vec, part...)
+		return err
+	})
 	if err != nil {
 		return nil, err
 	}
@@ -276,8 +309,6 @@ func ReadTreeModel(reader *bufio.Reader) (*TreeModel, error) {
 	if err != nil {
 		return nil, err
 	}
-	treeModel.Nodes = make([]Node, 0, treeModel.Param.NumNodes)
-	treeModel.Stats = make([]RTreeNodeStat, 0, treeModel.Param.NumNodes)
 	for i := int32(0); i < treeModel.Param.NumNodes; i++ {
 		node := Node{}
 		err := ReadStruct(reader, &node)
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 6706b23..0ad44e8 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -36,7 +36,7 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		return t, fmt.Errorf("support only trees with 1 root (got %d)", origTree.Param.NumRoots)
 	}
 
-	if origTree.Param.NumNodes == 0 {
+	if origTree.Param.NumNodes <= 0 {
 		return t, fmt.Errorf("tree with zero number of nodes")
 	}
 	numNodes := origTree.Param.NumNodes
@@ -179,6 +179,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		)
 	}
 
+	if origModel.Param.NumTrees < 0 {
+		return nil, fmt.Errorf("negative number of trees (%d)", origModel.Param.NumTrees)
+	}
 	e.WeightDrop = make([]float64, origModel.Param.NumTrees)
 	if header.NameGbm == "dart" {
 		// read additional float32 slice of weighs of dropped trees. Only for 'dart' models
@@ -210,6 +213,12 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	// 		header.Param.NumClass, origModel.Param.NumOutputGroup)
 	// }
 	e.nRawOutputGroups = int(origModel.Param.NumOutputGroup)
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("wrong number of output groups (%d)", e.nRawOutputGroups)
+	}
+	if len(origModel.TreeInfo)%e.nRawOutputGroups != 0 {
+		return nil, fmt.Errorf("wrong number of trees (%d) for number of output groups (%d)", len(origModel.TreeInfo), e.nRawOutputGroups)
+	}
 	if origModel.Param.NumRoots != 1 {
 		return nil, fmt.Errorf("support only trees with 1 root (got %d)", origModel.Param.NumRoots)
 	}
-- 
2.43.0


From e10c39fd25bb5777d7140741ff8d0a0acb6b822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 18/31] fix: refuse gblinear models with wrong number of
 weights

---
 xgblinear_io.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xgblinear_io.go b/xgblinear_io.go
index 7c14333..6790606 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -34,6 +34,16 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 	e.nRawOutputGroups = int(gbLinearModel.Param.NumOutputGroup)
 	e.NumFeature = int(gbLinearModel.Param.NumFeature)
 	e.Weights = gbLinearModel.Weights
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("wrong number of output groups (%d)", e.nRawOutputGroups)
+	}
+	if len(e.Weights) != (e.NumFeature+1)*e.nRawOutputGroups {
+		return nil, fmt.Errorf(
+			"unexpected number of weights (got: %d, expected: %d)",
+			len(e.Weights),
+			(e.NumFeature+1)*e.nRawOutputGroups,
+		)
+	}
 
 	var transform transformation.Transform
 	transform = &transformation.TransformRaw{e.nRawOutputGroups}
-- 
2.43.0


From 48ea82426699a5ceb7a3cbaa784586e7b1820771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 19/31] fix: check stack and memory of pickle machine instead
 of panic

---
 internal/pickle/decoder.go |  9 ++++++++-
 internal/pickle/machine.go | 35 +++++++++++++++++++++++++++++++++--
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index dad0a95..2a898b8 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -37,6 +37,10 @@ loop:
 		}
 
 		nInstr++
+		err = d.machine.check(buf[0])
+		if err != nil {
+			return nil, err
+		}
 		switch buf[0] {
 		case opMark:
 			d.machine.pushMark()
@@ -51,7 +55,10 @@ loop:
 			if err != nil {
 				return nil, err
 			}
-			obj := d.machine.getMemory(string(line))
+			obj, err := d.machine.getMemory(string(line))
+			if err != nil {
+				return nil, err
+			}
 			d.machine.push(obj)
 		case opGlobal:
 			module, err := d.readLine()
diff --git a/internal/pickle/machine.go b/internal/pickle/machine.go
index 4a66368..3d915a8 100644
--- a/internal/pickle/machine.go
+++ b/internal/pickle/machine.go
@@ -1,5 +1,7 @@
 package pickle
 
+import "fmt"
+
 // machine represents pickle abstract machine with stack, marks and
 // memory. It's used to represent unpickled object state while reading pickle file
 // command by command
@@ -60,6 +62,35 @@ func (m *machine) putMemory(key string) {
 	m.keys[len(m.keys)-1] = append(m.keys[len(m.keys)-1], key)
 }
 
-func (m *machine) getMemory(key string) interface{} {
-	return m.memory[key]
+func (m *machine) getMemory(key string) (interface{}, error) {
+	obj, found := m.memory[key]
+	if !found {
+		return nil, fmt.Errorf("no object with key \"%s\" in memory", key)
+	}
+	return obj, nil
+}
+
+// check checks that there are all objects on the stack which are needed by command `op`
+func (m *machine) check(op byte) error {
+	bottom := 0
+	if len(m.marks) > 0 {
+		bottom = m.marks[len(m.marks)-1]
+	}
+	nNeeded := 0
+	switch op {
+	case opTuple, opList, opDict:
+		if len(m.marks) == 0 {
+			return fmt.Errorf("no mark on the stack for op code: %d", op)
+		}
+	case opPut, opStop:
+		nNeeded = 1
+	case opAppend, opReduce, opBuild:
+		nNeeded = 2
+	case opSetitem:
+		nNeeded = 3
+	}
+	if len(m.stack)-bottom < nNeeded {
+		return fmt.Errorf("not enough objects on the stack for op code: %d", op)
+	}
+	return nil
 }
-- 
2.43.0


From b9ddc2ed2a626f520e1901b92db20353a9a01c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 20/31] fix: do not print pickled objects in errors, they could
 be recursive

---
 internal/pickle/decoder.go |  2 +-
 internal/pickle/numpy.go   | 10 +++++-----
 internal/pickle/sklearn.go |  6 +++---
 internal/pickle/types.go   |  4 ++--
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 2a898b8..0ccedd2 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -131,7 +131,7 @@ loop:
 			if t, ok := args.(Tuple); ok {
 				r.Args = t
 			} else {
-				return nil, fmt.Errorf("reduce: unexpected args %v", args)
+				return nil, fmt.Errorf("reduce: unexpected args type %T", args)
 			}
 			d.machine.push(r)
 		case opNone:
diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 68c6b59..c25c695 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -21,7 +21,7 @@ func (a *NumpyArrayRaw) Reduce(reduce Reduce) (err error) {
 	}
 
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple with length %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "numpy", "ndarray")
 	if err != nil {
@@ -110,7 +110,7 @@ func (b *NumpyRawBytes) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 2 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple with length %d", len(reduce.Args))
 	}
 	unicode, err := toUnicode(reduce.Args[0], -1)
 	if err != nil {
@@ -150,7 +150,7 @@ func (d *NumpyDType) Reduce(reduce Reduce) error {
 		return err
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple with length %d", len(reduce.Args))
 	}
 	unicode, err := toUnicode(reduce.Args[0], -1)
 	if err != nil {
@@ -184,7 +184,7 @@ func (d *NumpyDType) Build(build Build) error {
 	for name, fieldObj := range fields {
 		field, ok := fieldObj.(Tuple)
 		if !ok || len(field) == 0 {
-			return fmt.Errorf("unexpected description of field \"%s\": %#v", name, fieldObj)
+			return fmt.Errorf("unexpected description of field \"%s\" (got %T)", name, fieldObj)
 		}
 		fieldType := NumpyDType{}
 		err = ParseClass(&fieldType, field[0])
@@ -213,7 +213,7 @@ func (s *NumpyScalarRaw) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 2 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple with length %d", len(reduce.Args))
 	}
 	err = ParseClass(&s.Type, reduce.Args[0])
 	if err != nil {
diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index 393d16f..161ec2b 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -168,7 +168,7 @@ func (t *SklearnDecisionTreeRegressor) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple with length %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "sklearn.tree.tree", "DecisionTreeRegressor")
 	if err != nil {
@@ -234,7 +234,7 @@ func (t *SklearnGradientBoosting) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple with length %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "GradientBoostingClassifier")
 	if err != nil {
@@ -353,7 +353,7 @@ func (e *SKlearnInitEstimator) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple with length %d", len(reduce.Args))
 	}
 	classDesc, err := toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "")
 	if err != nil {
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index 54c6c38..1d533a2 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -133,7 +133,7 @@ func (d *Dict) toInt(key string) (int, error) {
 	}
 	intValue, ok := value.(int)
 	if !ok {
-		return 0, fmt.Errorf("expected int (got %#v)", value)
+		return 0, fmt.Errorf("expected int (got %T)", value)
 	}
 	return intValue, nil
 }
@@ -145,7 +145,7 @@ func (d *Dict) toFloat(key string) (float64, error) {
 	}
 	floatValue, ok := value.(float64)
 	if !ok {
-		return 0, fmt.Errorf("expected int (got %#v)", value)
+		return 0, fmt.Errorf("expected int (got %T)", value)
 	}
 	return floatValue, nil
 }
-- 
2.43.0


From 4a3345180b218de1c191d34bc8952434b88ed8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 21/31] fix: refuse transformations with one output for models
 with several outputs

---
 lgensemble_io.go | 3 +++
 xgblinear_io.go  | 3 +++
 xgensemble_io.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 3054239..0934c32 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -409,6 +409,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 				return nil, fmt.Errorf("unknown transformation function '%s'", objectiveStr)
 			}
 		}
+		if transform.NOutputGroups() != e.nRawOutputGroups {
+			return nil, fmt.Errorf("transformation '%s' is not suitable for num_class = %d", objectiveStr, e.nRawOutputGroups)
+		}
 	}
 
 	e.Trees = make([]lgTree, 0, nTrees)
diff --git a/xgblinear_io.go b/xgblinear_io.go
index 6790606..e94582f 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -49,6 +49,9 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 	transform = &transformation.TransformRaw{e.nRawOutputGroups}
 	if loadTransformation {
 		if header.NameObj == "binary:logistic" {
+			if e.nRawOutputGroups != 1 {
+				return nil, fmt.Errorf("transformation '%s' is not suitable for %d output groups", header.NameObj, e.nRawOutputGroups)
+			}
 			transform = &transformation.TransformLogistic{}
 		} else {
 			return nil, fmt.Errorf("unknown transformation function '%s'", header.NameObj)
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 0ad44e8..6e5e481 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -245,6 +245,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	transform = &transformation.TransformRaw{e.nRawOutputGroups}
 	if loadTransformation {
 		if header.NameObj == "binary:logistic" {
+			if e.nRawOutputGroups != 1 {
+				return nil, fmt.Errorf("transformation '%s' is not suitable for %d output groups", header.NameObj, e.nRawOutputGroups)
+			}
 			transform = &transformation.TransformLogistic{}
 		} else {
 			return nil, fmt.Errorf("unknown transformation function '%s'", header.NameObj)
-- 
2.43.0


From 29863d5701ba10129dee1937c2f77ecd4c2b5245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 22/31] fix: read all pairs of libsvm lines with repeated
 spaces

---
 mat/mat_io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index bf28447..9606795 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -161,7 +161,8 @@ func readFromLibsvm(reader *bufio.Reader, limit int, skipFirstColumn bool, f lib
 		records = records[:0]
 		for col := startIndex; col < len(tokens); col++ {
 			if len(tokens[col]) == 0 {
-				break
+				// pairs are separated by several spaces
+				continue
 			}
 			pair := strings.Split(tokens[col], ":")
 			if len(pair) != 2 {
-- 
2.43.0


From 8daeba1927cba907f4a110e3e9eceaa2a0519a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 23/31] fix: read libsvm lines with the only column

---
 mat/mat_io.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 9606795..f7f749e 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -154,10 +154,6 @@ func readFromLibsvm(reader *bufio.Reader, limit int, skipFirstColumn bool, f lib
 			break
 		}
 		tokens := strings.Split(line, " ")
-		if len(tokens) < 2 {
-			return fmt.Errorf("too few columns")
-		}
-
 		records = records[:0]
 		for col := startIndex; col < len(tokens); col++ {
 			if len(tokens[col]) == 0 {
-- 
2.43.0


From ef9d1837ec168361e5219ee9a979b40d1485a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 24/31] fix: refuse rows of different width after rows without
 columns

---
 mat/mat_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index f7f749e..b2bca9e 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -119,7 +119,7 @@ func recordsToDenseMat(mat *DenseMat, records []libsvmRecord) error {
 		}
 		mat.Values = append(mat.Values, r.value)
 	}
-	if mat.Cols == 0 {
+	if mat.Rows == 0 {
 		mat.Cols = len(records)
 	} else if mat.Cols != len(records) {
 		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, len(records))
-- 
2.43.0


From 5d0e41b20f1d921683ace2b355a8c9e4be8f7bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 25/31] fix: do not lose absent values on the edges of lines
 delimited by white space

---
 mat/mat_io.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index b2bca9e..1e5f766 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 type libsvmRecord struct {
@@ -207,7 +208,11 @@ func readFromCsv(reader *bufio.Reader,
 		if err != nil && err != io.EOF {
 			return err
 		}
-		line = strings.TrimSpace(line)
+		line = strings.TrimRight(line, "\r\n")
+		// white space around the line is not significant, but delimiters (ex. tabs) denote absent values
+		line = strings.TrimFunc(line, func(r rune) bool {
+			return unicode.IsSpace(r) && !strings.ContainsRune(delimiter, r)
+		})
 		if line == "" {
 			break
 		}
-- 
2.43.0


From aa0813e8567ab285a48ffae052f3db4e3d4673ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 26/31] fix: read pickle from readers which return no bytes
 without an error

---
 internal/pickle/decoder.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 0ccedd2..4a51764 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -29,11 +29,9 @@ func (d *Decoder) Decode() (interface{}, error) {
 	buf := make([]byte, 1024)
 loop:
 	for {
-		length, err := d.reader.Read(buf[:1])
+		_, err := io.ReadFull(d.reader, buf[:1])
 		if err != nil {
 			return nil, err
-		} else if length != 1 {
-			return nil, fmt.Errorf("unexpected read")
 		}
 
 		nInstr++
@@ -182,11 +180,9 @@ func (d *Decoder) readLine() ([]byte, error) {
 	line := make([]byte, 0)
 	buf := make([]byte, 1)
 	for {
-		len, err := d.reader.Read(buf)
+		_, err := io.ReadFull(d.reader, buf)
 		if err != nil {
 			return nil, err
-		} else if len != 1 {
-			return nil, fmt.Errorf("unexpected read")
 		}
 		if buf[0] == '\n' {
 			break
-- 
2.43.0


From 4731a058135c958891458374022bf1d20990c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 27/31] fix: do not allocate lists of classes before their
 length is checked

---
 internal/pickle/sklearn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index 161ec2b..678263d 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -88,7 +88,7 @@ func (t *SklearnTree) Reduce(reduce Reduce) (err error) {
 		return fmt.Errorf("expected ndtype \"i8\" little endian (got: %#v)", arr.Type)
 	}
 
-	t.Classes = make([]int, 0, t.NOutputs)
+	t.Classes = nil
 	err = arr.Iterate(8, func(b []byte) error {
 		t.Classes = append(t.Classes, int(binary.LittleEndian.Uint64(b)))
 		return nil
@@ -293,7 +293,7 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 		return fmt.Errorf("expected ndtype \"i8\" little endian (got: %#v)", arr.Type)
 	}
 
-	t.Classes = make([]int, 0, t.NClasses)
+	t.Classes = nil
 	err = arr.Iterate(8, func(b []byte) error {
 		t.Classes = append(t.Classes, int(binary.LittleEndian.Uint64(b)))
 		return nil
-- 
2.43.0


From 46dd42cfed5b46b2f6689940a06be2c97a9f48ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 28/31] fix: do not follow fields of numpy types recursively

---
 internal/pickle/numpy.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index c25c695..be57e34 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -164,16 +164,14 @@ func (d *NumpyDType) Reduce(reduce Reduce) error {
 }
 
 func (d *NumpyDType) Build(build Build) error {
-	// &version, &endian_obj, &subarray, &names, &fields, &elsize, &alignment, &int_dtypeflags
-	tuple, err := toTuple(build.Args, 8)
+	err := d.parseByteOrder(build)
 	if err != nil {
 		return err
 	}
-	endian, err := toUnicode(tuple[1], 1)
+	tuple, err := toTuple(build.Args, 8)
 	if err != nil {
 		return err
 	}
-	d.LittleEndinan = endian[0] == '<'
 
 	// structured types have no byte order on their own, it's defined by types of the fields
 	fields, ok := tuple[4].(Dict)
@@ -186,7 +184,7 @@ func (d *NumpyDType) Build(build Build) error {
 		if !ok || len(field) == 0 {
 			return fmt.Errorf("unexpected description of field \"%s\" (got %T)", name, fieldObj)
 		}
-		fieldType := NumpyDType{}
+		fieldType := numpyFieldDType{}
 		err = ParseClass(&fieldType, field[0])
 		if err != nil {
 			return err
@@ -202,6 +200,29 @@ func (d *NumpyDType) Build(build Build) error {
 	return nil
 }
 
+func (d *NumpyDType) parseByteOrder(build Build) error {
+	// &version, &endian_obj, &subarray, &names, &fields, &elsize, &alignment, &int_dtypeflags
+	tuple, err := toTuple(build.Args, 8)
+	if err != nil {
+		return err
+	}
+	endian, err := toUnicode(tuple[1], 1)
+	if err != nil {
+		return err
+	}
+	d.LittleEndinan = endian[0] == '<'
+	return nil
+}
+
+// numpyFieldDType is a type of the field of structured type. Its own fields are not considered
+type numpyFieldDType struct {
+	NumpyDType
+}
+
+func (d *numpyFieldDType) Build(build Build) error {
+	return d.parseByteOrder(build)
+}
+
 type NumpyScalarRaw struct {
 	Type NumpyDType
 	Data NumpyRawBytes
-- 
2.43.0


From c70cacd0f361478b78af9813265beaf7702d848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 29/31] fix: refuse LightGBM models with impossible number of
 features

---
 lgensemble_io.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 0934c32..74c4532 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -357,6 +357,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		return nil, err
 	}
 	e.MaxFeatureIdx = maxFeatureIdx
+	if e.NFeatures() < 0 {
+		return nil, fmt.Errorf("wrong max_feature_idx (%d)", maxFeatureIdx)
+	}
 
 	if params.Contains("average_output") {
 		e.name = "lightgbm.rf"
@@ -701,6 +704,9 @@ func LGEnsembleFromJSON(reader io.Reader, loadTransformation bool) (*Ensemble, e
 	}
 	e.nRawOutputGroups = data.NumClasses
 	e.MaxFeatureIdx = data.MaxFeatureIdx
+	if e.NFeatures() < 0 {
+		return nil, fmt.Errorf("wrong max_feature_idx (%d)", data.MaxFeatureIdx)
+	}
 
 	nTrees := len(data.Trees)
 	if nTrees == 0 {
-- 
2.43.0


From 6da677122c6256928bd68b7e6510649cd5773f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 30/31] fix: accept XGBoost trees pruned down to the root

---
 xgensemble_io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index 6e5e481..c63a975 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -44,8 +44,8 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 	// XGBoost doesn't support categorical features
 	t.nCategorical = 0
 
-	if numNodes == 1 {
-		// special case - constant value tree
+	if numNodes == 1 || xgIsLeaf(&origTree.Nodes[0]) {
+		// special case - constant value tree (the other nodes, if any, were deleted by pruning)
 		t.leafValues = append(t.leafValues, float64(origTree.Nodes[0].Info))
 		return t, nil
 	}
-- 
2.43.0


From b72ce3858e24ce23720927821987a9eafdb62780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 31/31] fix: refuse transformation of LightGBM models trained
 with reg_sqrt

---
 lgensemble_io.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 74c4532..51e0f3d 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -390,6 +390,12 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 			return nil, err
 		}
 
+		for _, token := range strings.Fields(objectiveStr) {
+			// LightGBM squares raw predictions of models trained with 'reg_sqrt'
+			if token == "sqrt" {
+				return nil, fmt.Errorf("unknown transformation function '%s'", objectiveStr)
+			}
+		}
 		if objectiveStr == "poisson" || objectiveStr == "gamma" || objectiveStr == "tweedie" {
 			transform = &transformation.TransformExponential{}
 		} else if !strings.HasPrefix(objectiveStr, "regression") { // no transformation for regression
-- 
2.43.0

