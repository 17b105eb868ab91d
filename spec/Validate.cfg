SPECIFICATION Spec
CONSTANTS
  Mode = "single"
  Depth = 1
INVARIANTS BasesConform
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
