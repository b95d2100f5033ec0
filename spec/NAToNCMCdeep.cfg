SPECIFICATION Spec
CONSTANTS
  Pool = {"a", "A (m)", "a_2", "a 2", "x_marks", "time"}
  Axes = {"a", "A (m)", "x (s)"}
  Indices = {1010, 1020, 2010}
  Most = 6
  MaxPrim = 2
  MaxAux = 1
  Targets = {"A", "b"}
INVARIANTS Distinct Allowed Export
PROPERTY Finishes
CHECK_DEADLOCK FALSE
