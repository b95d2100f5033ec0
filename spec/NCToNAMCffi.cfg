SPECIFICATION Spec
CONSTANTS
  MaxVars = 3
  Dims <- FewDims
  Indices = {0, 1001, 1010, 1020, 2010, 2110, 2310, 3010}
INVARIANTS Partition OneShape LeadingAux Together Ranked IndexFits NeverRefused RefusedRightly Requested
PROPERTY Finishes
CHECK_DEADLOCK FALSE
