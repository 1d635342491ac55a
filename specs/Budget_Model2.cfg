SPECIFICATION Spec
CONSTANTS N = 4  MX = 3  Far = FALSE
INVARIANTS NonNegative Kelvin ZeroIffUnstirred AreaBalance ForcingLinear ForcingOfExcess SolidBody Rotates
CHECK_DEADLOCK FALSE
