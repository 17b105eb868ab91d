SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxSize = 4
  Depth = 7
  EmitAll = TRUE
VIEW View
INVARIANTS CapOK
PROPERTY Frame
ACTION_CONSTRAINT Emit
CONSTRAINTS Bound EmitLeaf
CHECK_DEADLOCK FALSE
