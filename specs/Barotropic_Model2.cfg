SPECIFICATION Spec
CONSTANTS
 NR = 3
 NC = 2
 Vals = {0, 1, 3}
 NPs = {2, 3, 5}
INVARIANTS Distribution Rearranged Affine NonNeg ZeroWave Self Hemi MonotoneRef
