SPECIFICATION Spec
CONSTANTS
  Mode = "single"
  MaxPrims = 5
INVARIANTS Identity AllMade
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
