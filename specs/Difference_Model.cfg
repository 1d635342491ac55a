SPECIFICATION Spec
CONSTANTS
  N = 3
  M = 3
  V = {0, 1, 3}
  Sets = 5
INVARIANTS NoZonalMean Rotates Mirrors Stokes NoDivergence UniformStill Straight Ends CovSym Schwarz Halves EqMean
CHECK_DEADLOCK FALSE
