SPECIFICATION Spec
CONSTANTS
  N = 4
  Times = 2
INVARIANTS NoFalseAlarm FlawSeen
CHECK_DEADLOCK FALSE
