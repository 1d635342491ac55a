SPECIFICATION Spec
CONSTANTS
  Ns = {2, 3, 4, 5, 6}
  VMax = 2
INVARIANTS HasEquator Lines Between Alike NorthAlone NorthIsNorth Linear RefRows
