SPECIFICATION Spec
CONSTANTS
 NR = 3
 NC = 2
 Vals = {0, 1, 2}
 NPs = {2, 3, 4}
INVARIANTS Distribution Rearranged Affine NonNeg ZeroWave Self Hemi
