SPECIFICATION Spec
CONSTANTS
  Mode = "dense"
  Reps = 1
  Depth = 12
INVARIANTS RoundTrip InMemory
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
