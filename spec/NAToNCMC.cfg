SPECIFICATION Spec
CONSTANTS
  Pool = {"a", "A (m)", "a_2", "x_marks"}
  Axes = {"a", "x (s)"}
  Indices = {1010, 1020, 2010}
  MaxPrim = 2
  MaxAux = 1
  Targets = {"b"}
  Most = 5
INVARIANTS Distinct Allowed Export
PROPERTY Finishes
CHECK_DEADLOCK FALSE
