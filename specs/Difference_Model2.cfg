SPECIFICATION Spec
CONSTANTS
  N = 4
  M = 4
  V = {0, 1, 3}
  Sets = 4
INVARIANTS NoZonalMean Rotates Mirrors Stokes NoDivergence UniformStill Straight Ends CovSym Schwarz Halves EqMean
CHECK_DEADLOCK FALSE
