SPECIFICATION Spec
CONSTANTS MX = 4  Drops = 2
INVARIANTS ZonalMean Stokes Mirrored Rotated Poles
PROPERTY Local
CHECK_DEADLOCK FALSE
