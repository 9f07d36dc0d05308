SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Model = "items"
  Kinds = {""}
  Emit = TRUE
INVARIANTS
  Narrows
  StaysWrong
  Commutes
  Complete
PROPERTY Isolated
CHECK_DEADLOCK FALSE
