SPECIFICATION Spec
CONSTANTS
  Ffis = {1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010}
  MaxNV = 2
  MaxAux = 1
  MaxMarks = 1
  MaxDim = 2
  MaxCom = 0
  Breaks = 2
INVARIANTS Accepted EndsWell ReadsBack Conserved BreaksFree Truncated HeaderExact
CHECK_DEADLOCK FALSE
