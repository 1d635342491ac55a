SPECIFICATION Spec
CONSTANTS
  Needs = {4}
  Limits = {3, 99}
  Forcings = {"none"}
  Objs = {1, 2}
  MaxLen = 0
INVARIANTS TypeOK FluxIffConverged RefusedIsNoop RaisedOnlyRef CopyIsFree
PROPERTY Frame
