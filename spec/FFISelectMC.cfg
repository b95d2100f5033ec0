INIT Init
NEXT Next
INVARIANTS Exists Unique Outside
CHECK_DEADLOCK FALSE
