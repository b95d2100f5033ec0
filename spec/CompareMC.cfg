INIT Init
NEXT Next
INVARIANTS Reflexive Symmetric Coarser Sections
CHECK_DEADLOCK FALSE
