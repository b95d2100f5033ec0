SPECIFICATION Spec
CONSTANTS
  N = 3
  Times = 3
INVARIANTS NoFalseAlarm FlawSeen
CHECK_DEADLOCK FALSE
