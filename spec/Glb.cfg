SPECIFICATION Spec
INVARIANTS Within Enough
CHECK_DEADLOCK FALSE
CONSTANTS
 T0 = 240
 Big = FALSE
