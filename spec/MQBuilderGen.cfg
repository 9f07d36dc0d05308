SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Emit = TRUE
INVARIANTS
  Depends
  Complete
CHECK_DEADLOCK FALSE
