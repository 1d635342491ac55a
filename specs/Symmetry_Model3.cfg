SPECIFICATION Spec
CONSTANTS
 NL = 3
 NX = 3
 Vals = {0, 1, 3}
INVARIANTS IsAction Order DXEven DYOdd OneRow MeanFixed WaveNorth WaveSouth NonNeg Restricts SrcField
