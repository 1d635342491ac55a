SPECIFICATION Spec
CONSTANT MaxSteps = 3
INVARIANT SameValues Sound Kinds Undone Twice
CHECK_DEADLOCK FALSE
