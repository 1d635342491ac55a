SPECIFICATION Spec
CONSTANTS
  N = 4
  V = {0, 2}
  Steps = {1, 3}
INVARIANTS Running Closes Additive Shifted Refined Still Found
CHECK_DEADLOCK FALSE
