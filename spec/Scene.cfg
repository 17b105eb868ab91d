SPECIFICATION Spec
CONSTANTS
  Mode = "shapes"
  N = 3
INVARIANTS Consistent Complete
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
