SPECIFICATION Spec
CONSTANTS
  Depth = 5
  EmitAll = TRUE
VIEW View
INVARIANT TypeOK
ACTION_CONSTRAINT Emit
CONSTRAINT EmitLeaf
CHECK_DEADLOCK FALSE
