#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("P01","LightGBM numerical splits route every value as LightGBM does",
 "At a numerical split of a loaded LightGBM model a row goes left exactly when its feature value is <= the split threshold, except that missing values go to the split's declared default side: NaN when the split's missing type is NaN, and zero (any x with -1e-35 < x <= 1e-35) when it is Zero. A NaN under a split whose missing type is not NaN is treated as 0.0. This holds for every threshold and every float64 feature value, including infinities, signed zeros and denormals.",
 ["inputs","configurations"],"all float64 feature values x all finite thresholds x missing type {None,Zero,NaN} x default side",
 "Tests compare a few files of real data: no infinities, almost no Zero-type splits, no value on a threshold or on the zero cut-off.",
 ["lgtree.go","lgensemble_io.go"],[("numericalDecision/decision","lgtree.go"),("decision_type decoding","lgensemble_io.go lgTreeFromReader")],["Predict on a model read with LGEnsembleFromReader"])
p("P02","LightGBM categorical splits test exact set membership",
 "At a categorical split of a loaded LightGBM model a row goes left exactly when its feature value, truncated towards zero, is one of the split's categories; values that are not in the set, negative (<= -1), infinite or too large, and NaN on a split with NaN missing type, go right. The outcome depends only on the set of categories, however many there are and however large they are, and not on other splits or sets in the same tree.",
 ["inputs","configurations"],"all category sets within the bitset bound x all float64 feature values x several categorical splits per tree",
 "Only a handful of sets occur in the test models; boundaries between the one-category, one-word and many-word encodings and values past the set are not probed.",
 ["lgtree.go","lgensemble_io.go","util/util.go"],[("categoricalDecision, findInBitset","lgtree.go"),("createCategoricalNode","lgensemble_io.go"),("FirstNonZeroBit, NumberOfSetBits, FindInBitsetUint32","util/util.go")],["Predict on a model read with LGEnsembleFromReader"])
p("P03","LightGBM text trees of any shape reach the declared leaf",
 "For every well-formed tree in a LightGBM text model - any shape, any numbering of inner nodes and leaves, including a single leaf - prediction follows the declared left/right children from the root and yields the declared value and the declared index of the leaf reached.",
 ["inputs","programs"],"all binary trees up to the leaf bound, all numberings, all leaf values, all routings",
 "The loader rewrites the tree into its own node order; the test models exercise only LightGBM's usual numbering and a few shapes.",
 ["lgensemble_io.go","lgtree.go"],[("re-ordering so that the right child follows its parent","lgensemble_io.go lgTreeFromReader"),("predict walk","lgtree.go")],["Predict, leaf index Predict"])
p("P04","LightGBM raw score is the per-class sum (or mean) of its trees",
 "The raw prediction of a LightGBM model for class k is the sum, over the boosting iterations used, of the value of that iteration's k-th tree, added in iteration order; for a random forest (average_output) it is divided by the number of iterations used. Nothing left over in the output buffer from before the call influences the result.",
 ["inputs","configurations"],"all tree outputs, class counts, iteration counts within bounds, all initial output buffer contents",
 "Tests check a few models with tolerance; class/iteration layouts and dirty output buffers are not varied.",
 ["lgensemble.go","lgensemble_io.go"],[("predictInner","lgensemble.go")],["Predict"])
p("P05","JSON and text forms of a LightGBM model predict the same",
 "A LightGBM tree model read from its JSON dump gives, for every row, the same raw prediction as the same model read from its text form, for numerical and categorical splits, all missing types and default sides, and any tree shape.",
 ["inputs","programs"],"all models within the size bound x all rows",
 "Tests hold one small JSON model checked at a few points and one real one compared on one data set.",
 ["lgensemble_io.go"],[("unmarshalTree/unmarshalNode","lgensemble_io.go"),("lgTreeFromReader","lgensemble_io.go")],["LGEnsembleFromJSON, LGEnsembleFromReader, Predict"])
p("P06","XGBoost trees route rows as the binary model declares",
 "For every well-formed tree of an XGBoost binary model, any shape and node numbering, a row at a split goes left when its value is below the split's threshold, right when above, and to the split's default side when it is NaN, with the feature index and default side taken from the split word's low 31 bits and top bit. The tree contributes the float32 value of the leaf reached.",
 ["inputs","programs"],"all trees within the node bound x all float32 thresholds and leaf values x all float64 feature values (a value equal to the threshold is left open: the README documents a tolerance there)",
 "Tests read a few model files on 0/1 data; shapes, numberings and missing directions are only those that occur.",
 ["xgensemble_io.go","internal/xgbin/xgbin_io.go","lgtree.go"],[("xgTreeFromTreeModel","xgensemble_io.go"),("ReadTreeModel","internal/xgbin/xgbin_io.go")],["Predict on a model read with XGEnsembleFromReader"])
p("P07","XGBoost raw score is base score plus weighted leaf values per class",
 "The raw prediction of an XGBoost gbtree model for class k is the model's base score plus the leaf values of the class's trees over the iterations used; for a dart model each tree's value is multiplied by that tree's own stored weight. Nothing left over in the output buffer from before the call influences the result.",
 ["inputs","configurations"],"all base scores, leaf values, dart weights; class and iteration counts within bounds; all initial output buffer contents",
 "Two small models; multi-class dart and unequal weights per tree are never exercised.",
 ["xgensemble.go","xgensemble_io.go","internal/xgbin/xgbin_io.go"],[("predictInner","xgensemble.go"),("XGEnsembleFromReader weights","xgensemble_io.go")],["Predict"])
p("P08","XGBoost gblinear score is base score plus bias plus weighted features",
 "The raw prediction of an XGBoost gblinear model for class k is the base score plus that class's bias plus the sum over all features of value times that feature's weight for that class, with weights read in the model file's feature-major order.",
 ["inputs","configurations"],"all weights, base scores, feature values; feature and class counts within bounds",
 "One binary (one class) model is tested, so the class stride of the weight layout is never exercised.",
 ["xgblinear.go","xgblinear_io.go","internal/xgbin/xgbin_io.go"],[("predictInner","xgblinear.go"),("ReadGBLinearModel","internal/xgbin/xgbin_io.go")],["Predict on a model read with XGBLinearFromReader"])
p("P09","scikit-learn score is prior plus learning rate times leaf values",
 "For a scikit-learn GradientBoostingClassifier pickle the raw prediction for class k is that class's initial prior plus the sum over iterations of learning rate times the value of the leaf reached in that iteration's k-th tree, where a row goes left exactly when its value is <= the split threshold, for any tree shape including single-leaf trees. A binary model has one score, a K-class model has K.",
 ["inputs","programs"],"all priors, learning rates, thresholds, leaf values; tree shapes, class and iteration counts within bounds",
 "Two pickles are compared with tolerance on one data set each.",
 ["skensemble_io.go","internal/pickle/sklearn.go","internal/pickle/numpy.go"],[("lgTreeFromSklearnDecisionTreeRegressor, SKEnsembleFromReader","skensemble_io.go"),("Build methods","internal/pickle/sklearn.go")],["Predict on a model read with SKEnsembleFromReader"])
p("P10","The loaded output transformation is the objective's, on raw scores",
 "When a model is loaded with transformation enabled, its outputs are exactly the objective's function of its raw scores: sigmoid for LightGBM binary and XGBoost binary:logistic, softmax for LightGBM multiclass, exponential for poisson, gamma and tweedie, identity for regression and random forests. When it is loaded without, or viewed through the raw-prediction view, its outputs are the raw scores, and the transformation's reported name and output count always match what it does.",
 ["inputs","configurations"],"all objectives the loaders know x load flag x raw scores x classes within bounds",
 "Tests load one model per objective on one data set, and never query names or counts for all kinds.",
 ["leaves.go","lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","transformation/transformation.go","transformation/logistic.go","transformation/softmax.go","transformation/exponential.go","transformation/raw.go","util/util.go"],[("predictInnerAndTransform, EnsembleWithRawPredictions","leaves.go"),("objective parsing","lgensemble_io.go"),("Transform implementations","transformation/")],["Predict, Transformation().Name(), NOutputGroups()"])
p("P11","Transformed outputs are sane numbers for every finite raw score",
 "For every finite raw score the sigmoid output lies in [0,1] and the exponential output is >= 0 and neither is NaN; for every vector of finite raw scores the softmax outputs all lie in [0,1], are never NaN, are not all zero, and order the classes as the raw scores do.",
 ["inputs"],"all finite float64 raw scores, class counts within bounds",
 "Unit tests use moderate scores; overflow and underflow of the exponential are never reached.",
 ["util/util.go","transformation/softmax.go","transformation/logistic.go","transformation/exponential.go"],[("Sigmoid, SoftmaxFloat64Slice","util/util.go")],["Transform of the transformation objects, Predict"])
p("P12","Leaf-index predictions give each tree's leaf, in the documented layout",
 "A leaf-prediction view of a tree model returns, for each class k and iteration i, at position k*iterations+i, the index of the leaf that determines that tree's contribution: every index is an integer in [0, number of leaves of that tree), different leaves have different indices, and the reported leaf counts use the same layout. Asking for fewer iterations than the model has is an error.",
 ["inputs","configurations"],"all rows, routings, tree shapes, class and iteration counts within bounds, LightGBM, XGBoost and sklearn models",
 "One single-class LightGBM model is compared; multi-class layout and the other formats are never tested.",
 ["leaves.go","lgensemble.go","xgensemble.go","transformation/leaf_index.go"],[("predictLeafIndicesInner, NLeaves","lgensemble.go, xgensemble.go"),("EnsembleWithLeafPredictions, checkNEstimators","leaves.go")],["EnsembleWithLeafPredictions().Predict, NLeaves"])
p("P13","All prediction entry points agree row by row",
 "For the same row, Predict, PredictSingle (single-output models), the dense batch call and the sparse batch call return identical values whatever the batch, its size, and the row's place in it, where a feature absent from a sparse row means 0 for LightGBM, scikit-learn and gblinear models and missing for XGBoost trees; sparse entries for columns the model does not use are ignored. No row's features influence another row's result.",
 ["inputs","configurations"],"all batches within the row/column bound, all sparsity patterns, all values, every model kind",
 "Tests run one path per data set and compare with tolerance to a reference file; sparsity patterns and row order are fixed.",
 ["leaves.go","lgensemble.go","xgensemble.go","xgblinear.go"],[("PredictSingle, Predict, PredictDense, PredictCSR, predictCSRInner","leaves.go"),("resetFVals","lgensemble.go, xgensemble.go, xgblinear.go")],["PredictSingle, Predict, PredictDense, PredictCSR"])
p("P14","Parallel batches equal sequential ones under every schedule",
 "For every batch size, every requested thread count (including zero, negative and more than available) and every goroutine schedule, a batch prediction call terminates, every row's output equals the single-threaded result, and its workers perform no unsynchronised conflicting memory accesses.",
 ["schedules","inputs","configurations"],"all interleavings of the worker goroutines at synchronisation points, row counts around the batch-size multiples, thread counts, GOMAXPROCS values",
 "Tests run a couple of thread counts under whatever schedule the runtime happens to choose, without the race detector.",
 ["leaves.go"],[("PredictDense/PredictCSR worker pool","leaves.go")],["PredictDense, PredictCSR"])
p("P15","nEstimators selects a prefix of the boosting iterations",
 "Asking for n > 0 iterations uses exactly the first min(n, available) iterations of every class, and asking for zero or a negative number uses all of them, in every prediction entry point and for every tree model kind; gblinear models always use their single estimator.",
 ["inputs","configurations"],"all integers n, all models within the size bound",
 "Tests use 0 and one or two values per model.",
 ["leaves.go","lgensemble.go","xgensemble.go","xgblinear.go"],[("adjustNEstimators","lgensemble.go, xgensemble.go, xgblinear.go")],["Predict, PredictSingle, PredictDense, PredictCSR"])
p("P16","Short buffers are refused and outputs stay in their slots",
 "If the output slice is shorter than rows times output groups, or a row has fewer features than the model, Predict and the dense batch call return an error and the sparse one does so for the output slice, with no panic and no output written (PredictSingle returns 0, also for a model with several outputs). A successful call writes exactly the first rows times output groups elements and never changes any later element or any input.",
 ["inputs","configurations"],"all buffer lengths, feature counts and batch shapes within bounds, every model kind and view",
 "Tests always pass exactly sized buffers.",
 ["leaves.go"],[("length checks","leaves.go Predict, PredictDense, PredictCSR, PredictSingle")],["Predict, PredictDense, PredictCSR, PredictSingle"])
p("P17","A loaded model may be used from several goroutines at once",
 "Predictions made concurrently on one loaded model (and on its raw and leaf-index views) never conflict on memory and return exactly what each would return alone; predicting, and creating views, never changes what the model later predicts or reports.",
 ["schedules","histories"],"pairs of concurrent prediction calls under all schedules; sequences of calls and views",
 "Tests only ever use a model from one caller.",
 ["leaves.go","lgensemble.go","xgensemble.go","lgtree.go","xgblinear.go"],[("prediction only reads the model","lgtree.go predict, *.predictInner"),("views are fresh wrappers","leaves.go EnsembleWith*")],["Predict*, EnsembleWith*"])
p("P18","A model whose data ends early or cannot be read is never loaded",
 "If the stream of an XGBoost (gbtree, dart, gblinear) or scikit-learn model ends, or reading it fails, at any byte before the model data is complete, or a LightGBM text stream ends or fails before its last tree starts, or a LightGBM JSON stream before the document is complete, loading returns an error and no model, and does not panic.",
 ["fault_sequences","crash_points"],"every cut position and every position of a read error in models within the size bound",
 "Tests read intact files only.",
 ["internal/xgbin/xgbin_io.go","xgensemble_io.go","xgblinear_io.go","internal/pickle/decoder.go","lgensemble_io.go","util/util.go"],[("error propagation from every read","internal/xgbin/xgbin_io.go, internal/pickle/decoder.go, util.ReadParamsUntilBlank")],["*FromReader, LGEnsembleFromJSON"])
p("P19","Loading does not depend on how the stream is delivered",
 "The model obtained from a stream does not depend on how the underlying reader splits the bytes over reads (single bytes, arbitrary chunks, data returned together with end-of-file), nor on bytes following the model, nor on whether it is opened by file name or by reader.",
 ["schedules","inputs"],"all splittings of the stream within bounds, all model formats",
 "Tests read from local files, which always fill the buffer.",
 ["internal/xgbin/xgbin_io.go","internal/pickle/decoder.go","util/util.go","lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go"],[("full reads through binary.Read / ReadString","internal/xgbin, util"),("FromFile wrappers","*_io.go")],["*FromReader, *FromFile"])
p("P20","Unsupported or contradictory models are refused with an error",
 "Loading returns an error, not a model, when the header contradicts itself or names something unsupported: unknown LightGBM version, num_class different from num_tree_per_iteration or below 1, tree count not a multiple of the class count, unknown missing type, or, with transformation requested, an unknown objective or parameters that contradict the model; a wrong XGBoost booster, zero features or trees, several roots, more features in trees than in the header, tree groups not cycling over the classes, or dart weights that do not match the trees; a scikit-learn ensemble whose tree count or shape contradicts its parameters.",
 ["inputs","configurations"],"all values of the header fields within bounds",
 "Tests never load an unsupported model.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","internal/pickle/sklearn.go"],[("header validation","*_io.go")],["*FromReader, LGEnsembleFromJSON"])
p("P21","Malformed model bytes give an error, never a panic or a hang",
 "Loading a model whose structure is damaged - child, leaf, feature or category indices out of range, arrays of the wrong length, cyclic or shared children, negative or absurd counts, stray or truncated pickle commands - returns normally, with an error if the damage makes the model unusable; a model that is returned can be used for prediction on a row of its reported width without panic or endless loop.",
 ["inputs","fault_sequences"],"all values of the structural fields of small models, all short pickle command streams",
 "Tests read only intact files produced by the real libraries.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","internal/pickle/machine.go","internal/pickle/decoder.go","internal/pickle/sklearn.go","internal/pickle/numpy.go","internal/xgbin/xgbin_io.go"],[("structure validation","*_io.go, internal/pickle/machine.go")],["*FromReader, LGEnsembleFromJSON, Predict"])
p("P22","The pickle decoder rebuilds the pickled value",
 "Decoding a protocol 0 pickle of a value made of integers, floats, strings, None, tuples, lists and string-keyed dictionaries, nested in any way and with memo references to earlier objects, yields that value: the same structure, order and contents, including strings with backslashes and line feeds and any other bytes.",
 ["inputs","programs"],"all values within the nesting/size bound, all contents",
 "Tests decode three fixed files.",
 ["internal/pickle/decoder.go","internal/pickle/machine.go","internal/pickle/types.go"],[("opcode loop","internal/pickle/decoder.go"),("stack, marks, memo","internal/pickle/machine.go")],["pickle.NewDecoder(r).Decode()"])
p("P23","numpy payloads in pickles decode to the exact numbers",
 "Numbers stored as raw array bytes in a pickle are recovered exactly, for every bit pattern and both byte orders, in order, with every field of a tree-node record in its place; a payload whose length is not a whole number of elements, or whose declared type or shape contradicts what is expected, is an error.",
 ["inputs"],"all byte contents, element counts within bounds",
 "Two fixed arrays are decoded by tests, never big-endian ones.",
 ["internal/pickle/numpy.go","internal/pickle/sklearn.go","util/util.go"],[("Iterate, NumpyDType","internal/pickle/numpy.go"),("SklearnNodeFromBytes","internal/pickle/sklearn.go"),("Float64FromBytes","util/util.go")],["pickle.ParseClass, SKEnsembleFromReader"])
p("P24","Bit-set helpers are exact for every bit pattern",
 "For every bit set, the population count is the number of one bits, the first-set-bit query returns the lowest set position or an error exactly when no bit is set, building a set from a list of non-negative values makes a set of minimal length whose members are exactly those values, and a membership query answers true exactly for set positions, false beyond the word.",
 ["inputs"],"all 32-bit words, slices up to the word bound, all positions",
 "Unit tests sample a few words of 2^32.",
 ["util/util.go"],[("FirstNonZeroBit, NumberOfSetBits, ConstructBitset, FindInBitsetUint32","util/util.go")],["util package functions"])
p("P25","libsvm text is read into the matrix it denotes",
 "Reading libsvm text yields one row per line up to the first blank line or the end, in order, containing exactly the column:value pairs written on that line, with the label column skipped on request and at most `limit` rows read when a positive limit is given; dense reading fails unless columns are 0,1,2,... with the same count in every row, and a malformed pair is an error.",
 ["inputs"],"all small texts within the row/column bound, all values, limits, spacing and line endings",
 "Two fixed files.",
 ["mat/mat_io.go"],[("readFromLibsvm, recordsToCSRMat, recordsToDenseMat","mat/mat_io.go")],["CSRMatFromLibsvm, DenseMatFromLibsvm"])
p("P26","Delimited text is read into the matrix it denotes",
 "Reading delimited text yields one row per line up to the first blank line or the end, and one value per field, in order, for any delimiter, using the default value for an absent field wherever it stands in the line, skipping the first column on request and reading at most `limit` rows when a positive limit is given; rows of different width and non-numeric fields are errors.",
 ["inputs"],"all small tables within the row/column bound, all values, all patterns of absent fields, delimiters, limits",
 "CSV reading has no unit test at all; it is used on complete data files only.",
 ["mat/mat_io.go"],[("readFromCsv, recordsToDenseMat","mat/mat_io.go")],["DenseMatFromCsv"])
p("P27","Writing a matrix and reading it back is the identity",
 "Every consistent dense matrix with at least one element, written as delimited text and read back with the same delimiter (one that cannot occur inside a number or be mistaken for a line end), has the same shape and exactly the same float64 values; an inconsistent matrix is refused, and a failure of the writer or the file is reported. Building dense or sparse matrices from an array preserves every value at its row and column, refuses a wrong element count (dimensions non-negative and below 2^31), and does not alias the caller's array.",
 ["inputs"],"all values, shapes within bounds",
 "Not tested at all.",
 ["mat/mat_io.go","mat/mat.go"],[("WriteStr","mat/mat_io.go"),("DenseMatFromArray, CSRMatFromArray, DenseMatZero","mat/mat.go")],["DenseMat.WriteStr, DenseMatFromCsv, *FromArray"])
p("P28","Reported model dimensions are those of the model file",
 "For every loaded model the reported number of features, classes (raw output groups), iterations, per-tree leaf counts and the model name equal what the file declares, including models with a single feature, and a row of exactly the reported number of features is always enough to predict.",
 ["inputs","configurations"],"all header values and model sizes within bounds, every format",
 "Tests check some counts of a few files; a one-feature model is never loaded.",
 ["lgensemble.go","xgensemble.go","xgblinear.go","lgensemble_io.go","xgensemble_io.go","skensemble_io.go","leaves.go"],[("NFeatures, NEstimators, NLeaves, Name","lgensemble.go, xgensemble.go, xgblinear.go")],["NFeatures, NRawOutputGroups, NEstimators, NLeaves, Name"])
p("P29","Approximate-equality helpers report exactly the tolerance",
 "The slice comparison helper reports success exactly when lengths agree and every pair of (finite) elements differs by at most the threshold, the mismatch counter returns exactly the number of pairs that differ by more, and different lengths are an error in both.",
 ["inputs"],"all float64 values and thresholds, lengths within bounds",
 "Used by tests, never tested at boundaries.",
 ["util/util.go"],[("AlmostEqualFloat64, AlmostEqualFloat64Slices, NumMismatchedFloat64Slices","util/util.go")],["util package functions"])
p("P30","Key=value model sections are parsed exactly",
 "Reading a section skips blank lines in front of it and returns exactly the key/value pairs of its lines up to the next blank line or the end of data (a last line without line feed included), tolerating surrounding white space and either line ending, leaving the rest of the stream for the next section, and rejecting a line with two '=' signs; typed accessors return the declared numbers in order and fail on absent keys and on text that is not a number of that type and width.",
 ["inputs"],"all small sections, all numeric field values, all line endings",
 "One fixed section is tested.",
 ["util/util.go"],[("ReadParamsUntilBlank","util/util.go"),("ToInt, ToFloat64Slice, ToUint32Slice, ToInt32Slice, Compare, Contains","util/util.go")],["util.ReadParamsUntilBlank and the returned accessors"])
p("P31","Models in one process do not influence each other",
 "What a model predicts and reports does not depend on which other models were loaded, refused, used or viewed before it or since, nor on what becomes of the bytes and buffers it was read from, and two models can be loaded and used by two goroutines at once without interfering. The same bytes loaded again give the same model, or are refused again.",
 ["histories","schedules","inputs"],"all ordered pairs of kinds of models, failed loads in between, damaged files loaded twice, two loads at once",
 "Tests load one model at a time and never compare a model with itself after others were loaded.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","internal/xgbin/xgbin_io.go","internal/pickle/machine.go","util/util.go"],[("no state outside the model: decoders, parameters and transformations are made per load","*_io.go, internal/pickle/decoder.go")],["*FromReader, LGEnsembleFromJSON, Predict*"])
p("P32","No file or goroutine is left behind by a call",
 "Every file that loading a model, reading a matrix or writing one opens is closed again when the call returns, whether it succeeds or fails, and every goroutine that a prediction on a batch or a load starts ends, for every size and thread count, accepted or refused. A file that cannot be opened or made is reported as an error.",
 ["inputs","fault_sequences","schedules"],"every cut of every kind of model file, well-formed and malformed matrices, failing devices, all thread counts and batch sizes within bounds",
 "Tests do not look at what stays open, and never make a load fail.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","mat/mat_io.go","leaves.go"],[("files are closed on every way out","*FromFile, ToCsvFile"),("workers end when the queue is closed","leaves.go PredictCSR, PredictDense")],["*FromFile, ToCsvFile, PredictCSR, PredictDense"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P:
        assert len(d["title"])<=80,d["title"]
        f.write(json.dumps(d)+"\n")
print(len(P))
