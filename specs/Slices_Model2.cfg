SPECIFICATION Spec
CONSTANTS
  MaxDims = 2
  MaxSize = 3
INVARIANTS Bijection Once Labelled Tables
CHECK_DEADLOCK FALSE
