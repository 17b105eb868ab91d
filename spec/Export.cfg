SPECIFICATION Spec
CONSTANTS
  Mode = "glb"
  Big = FALSE
  Depth = 16
INVARIANT Functional
CHECK_DEADLOCK FALSE
