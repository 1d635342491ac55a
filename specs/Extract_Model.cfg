SPECIFICATION Spec
CONSTANTS
  N = 4
  L = 3
INVARIANTS Composed Nothing Whole Backwards Beyond
CHECK_DEADLOCK FALSE
