SPECIFICATION Spec
CONSTANTS MaxOuts = 2 MaxRows = 5 MaxLimit = 6
INVARIANTS Partition Prefix FullButLast Numbered Whole Same
PROPERTY Ends
CHECK_DEADLOCK FALSE
