SPECIFICATION Spec
CONSTANTS
  Depth = 5
  EmitAll = TRUE
VIEW View
INVARIANTS Exact
ACTION_CONSTRAINT Emit
CONSTRAINT EmitLeaf
CHECK_DEADLOCK FALSE
