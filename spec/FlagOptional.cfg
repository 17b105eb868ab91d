SPECIFICATION Spec
CONSTANTS
  MaxVal = 2
  Depth = 6
  EmitAll = TRUE
VIEW View
INVARIANTS TypeOK HistOK
PROPERTY Independent
ACTION_CONSTRAINT Emit
CONSTRAINT EmitLeaf
CHECK_DEADLOCK FALSE
