SPECIFICATION Spec
CONSTANTS
  Modes = {"none", "stop", "go"}
  Emit = FALSE
INVARIANTS InOrder OfKind Stops Reported Complete Unknown Emitted
CHECK_DEADLOCK FALSE
