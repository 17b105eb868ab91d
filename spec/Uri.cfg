SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Mode = "texts"
INVARIANTS RoundTrip Partition Emit
CHECK_DEADLOCK FALSE
