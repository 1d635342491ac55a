SPECIFICATION Spec
CONSTANTS
 NL = 5
 NX = 2
 Vals = {0, 1, 3}
INVARIANTS IsAction Order DXEven DYOdd OneRow MeanFixed WaveNorth WaveSouth NonNeg Restricts SrcField
