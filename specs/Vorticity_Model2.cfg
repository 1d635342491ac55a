SPECIFICATION Spec
CONSTANTS MX = 5  Drops = 3
INVARIANTS ZonalMean Stokes Mirrored Rotated Poles
PROPERTY Local
CHECK_DEADLOCK FALSE
