SPECIFICATION Spec
CONSTANTS
  Ffis = {1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010}
  MaxNV = 2
  MaxAux = 2
  MaxMarks = 3
  MaxDim = 3
  MaxCom = 0
  Breaks = 0
INVARIANTS Accepted EndsWell ReadsBack Conserved BreaksFree Truncated HeaderExact
CHECK_DEADLOCK FALSE
