SPECIFICATION Spec
CONSTANTS
  Sources = {1, 2}
  Targets = {1, 2}
  Vars = 2
  Routes = {"file", "dict"}
  Steps = 3
INVARIANTS Accounted Newest Export
PROPERTY Kept
CHECK_DEADLOCK FALSE
