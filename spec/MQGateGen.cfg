SPECIFICATION Spec
CONSTANTS
  Emit = FALSE
INVARIANTS Alone Emitted
CHECK_DEADLOCK FALSE
