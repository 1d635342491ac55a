SPECIFICATION Spec
CONSTANTS
  MaxDims = 3
  MaxSize = 2
INVARIANTS Bijection Once Labelled Tables
CHECK_DEADLOCK FALSE
