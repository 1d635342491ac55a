SPECIFICATION Spec
CONSTANTS N = 5  K = 4
INVARIANTS Balanced ShiftKeeps MeanMoves Barotropic EdgesOnly UniformIsFree NoBump
CHECK_DEADLOCK FALSE
