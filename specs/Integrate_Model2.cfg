SPECIFICATION Spec
CONSTANTS
  N = 3
  V = {0, 1, 3}
  Steps = {1, 3}
INVARIANTS Running Closes Additive Shifted Refined Still Found
CHECK_DEADLOCK FALSE
