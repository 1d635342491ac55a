SPECIFICATION Spec
CONSTANT MaxEdits = 2
INVARIANTS StartsGood Decided Axes OneIsEnough Sources ArraysHaveNoNames
CHECK_DEADLOCK FALSE
