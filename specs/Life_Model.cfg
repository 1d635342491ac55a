SPECIFICATION Spec
CONSTANTS
  Needs = {2, 4, 6}
  Limits = {3, 5, 99}
  Forcings = {"none", "a"}
  Objs = {1}
  MaxLen = 0
INVARIANTS TypeOK FluxIffConverged FlagIffBad LwaAfterAnySolve RefusedIsNoop RaisedOnlyRef Ordered Completes ProvenanceOK CopyIsFree
PROPERTY Frame
