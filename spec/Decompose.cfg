SPECIFICATION Spec
CONSTANTS
  Mode = "axis"
  Depth = 1
INVARIANT TypeOK
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
