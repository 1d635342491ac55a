SPECIFICATION Spec
CONSTANTS
  N = 4
  V = {0, 1, 3}
INVARIANTS Size Symmetric Monotonic SameWay OwnRows Equator Parity Even Again
CHECK_DEADLOCK FALSE
