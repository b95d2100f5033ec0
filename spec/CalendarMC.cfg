SPECIFICATION Spec
INVARIANTS Inverse InRange Follows
CHECK_DEADLOCK FALSE
