SPECIFICATION Spec
CONSTANTS
  Needs = {2, 4}
  Limits = {3, 99}
  Forcings = {"none"}
  Slices = {1, 2}
  MaxLen = 0
INVARIANTS TypeOK AsAlone FluxIffConverged LwaAfterAnySolve Alike Completes
PROPERTY Refusals
