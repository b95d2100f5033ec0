SPECIFICATION Spec
CONSTANTS
  MaxVars = 3
  Dims <- AllDims
  Indices = {0}
INVARIANTS Partition OneShape LeadingAux Together Ranked IndexFits NeverRefused RefusedRightly Requested
PROPERTY Finishes
CHECK_DEADLOCK FALSE
