SPECIFICATION Spec
CONSTANTS
  MaxSize = 5
  Depth = 6
  EmitAll = TRUE
VIEW View
INVARIANT Bounded
ACTION_CONSTRAINT Emit
CONSTRAINT EmitLeaf
CHECK_DEADLOCK FALSE
