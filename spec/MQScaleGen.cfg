SPECIFICATION Spec
CONSTANTS
  Last = 12
  Emit = TRUE
INVARIANTS Linear Printed Emitted
CHECK_DEADLOCK FALSE
