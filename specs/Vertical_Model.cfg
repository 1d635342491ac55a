SPECIFICATION Spec
INVARIANTS Nodes Between Straight LinearExact Hemispheric MirrorMean MeanOfConstant
PROPERTY Local
CHECK_DEADLOCK FALSE
