#!/usr/bin/env python3
# writes known_findings.json: the open findings (F) and the repaired defects, with the commits looked up by subject in /repo
import json,subprocess
F=[]
D=[
("P10","name the exponential","TransformExponential.Name() panicked and Type().Name() of exponential was \"logistic\""),
("P11","keep softmax finite","softmax of scores above 709 gave NaN and of scores below -745 gave 0/0"),
("P28","report one feature","NFeatures was 0 for a LightGBM model with max_feature_idx=0 (and prediction refused its rows)"),
("P16","report one feature","rows of exactly one feature were refused by single-feature LightGBM models"),
("P12","give single-leaf scikit-learn","a scikit-learn tree with one node was loaded with two leaves; NLeaves was 2"),
("P28","give single-leaf scikit-learn","NLeaves of a scikit-learn model with single-node trees"),
("P30","skip blank lines","two blank lines before a section, or no line feed after the last line, lost the section or the line"),
("P27","report a failure","errors of Flush were dropped: a full disk gave nil and a short file"),
("P22","decode all escapes","\\x.., \\t, \\n, \\r, \\', \\U escapes of protocol 0 strings were kept undecoded or refused"),
("P22","keep memo entries","a list or object memoised before it is filled stayed empty when fetched with GET"),
("P23","keep memo entries","an array memoised before BUILD stayed empty"),
("P23","refuse numpy arrays","an array whose bytes do not correspond to its shape was read with elements missing or panicked"),
("P23","take byte order","records with big-endian fields were read as little-endian"),
("P18","refuse LightGBM trees with arrays","a text model cut within an array line was accepted or panicked at load or prediction"),
("P21","refuse LightGBM trees with arrays","index out of range for arrays shorter than num_leaves, num_cat or the category boundaries ask for"),
("P21","refuse trees with wrong references","child references out of range panicked; cycles made prediction endless"),
("P21","refuse LightGBM and XGBoost trees with features","a split on a feature behind max_feature_idx / num_feature panicked in prediction"),
("P28","take number of features of scikit-learn","NFeatures of a scikit-learn model was taken from a field older versions lack"),
("P21","refuse scikit-learn models with wrong counts","n_estimators, n_classes, feature indices or priors not matching the trees panicked"),
("P21","check number of nodes and categories","JSON trees with more nodes or categories than num_leaves / num_cat panicked"),
("P20","check counts in XGBoost","negative or huge counts in the XGBoost header panicked (makeslice, divide by zero)"),
("P21","check counts in XGBoost","negative or huge counts in XGBoost trees panicked or allocated without bound"),
("P21","refuse gblinear models","gblinear models whose weights are fewer than (features+1)*groups panicked in prediction"),
("P21","check stack and memory","pickle commands on an empty stack or unknown memo entries panicked"),
("P21","do not print pickled","the error for an unexpected recursive pickled object overflowed the stack"),
("P20","refuse transformations","a sigmoid or exponential objective with several outputs was loaded and every prediction failed"),
("P25","read all pairs","pairs after two consecutive spaces were dropped"),
("P25","read libsvm lines with the only","lines with a label only, or one pair without label, were refused"),
("P25","refuse rows of different width","rows of any width were accepted after rows without columns, as values of one row"),
("P26","refuse rows of different width","rows of any width were accepted after rows without columns, as values of one row"),
("P26","do not lose absent values","tab-delimited lines lost their first or last cell when it was empty"),
("P19","read pickle from readers","a reader returning (0, nil) once made loading fail"),
("P20","do not allocate lists","a negative number of classes or outputs with an array of that shape panicked, a huge one exhausted the memory"),
("P21","do not allocate lists","a negative number of classes or outputs with an array of that shape panicked, a huge one exhausted the memory"),
("P21","do not follow fields","a numpy type that contains itself overflowed the stack (introduced with the repair of big-endian records)"),
("P21","refuse LightGBM models with impossible","max_feature_idx below -1 or at the largest int gave a negative NFeatures and a panic in PredictCSR"),
("P06","accept XGBoost trees pruned down","a tree whose root was pruned to a leaf, with its deleted nodes still in the file, was refused"),
("P10","refuse transformation of LightGBM models trained with reg_sqrt","objective \"regression sqrt\" loaded with the identity although LightGBM squares its outputs"),
]
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
fixed=[]
for p,s,w in D:
    c=[l.split()[0] for l in log if ' fix: '+s in l]
    assert len(c)==1,(s,c)
    fixed.append('fixed: property=%s %s %s'%(p,c[0],w))
unused=[l for l in log if ' fix: ' in l and not any(' fix: '+s in l for _,s,_ in D)]
if unused: print('not recorded:',unused)
json.dump({"findings":F,"fixed":fixed},open('/verif/known_findings.json','w'),indent=1)
