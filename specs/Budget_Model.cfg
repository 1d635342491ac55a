SPECIFICATION Spec
CONSTANTS N = 3  MX = 3  Far = TRUE
INVARIANTS NonNegative Kelvin ZeroIffUnstirred AreaBalance ForcingLinear ForcingOfExcess SolidBody Rotates
CHECK_DEADLOCK FALSE
