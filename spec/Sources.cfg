SPECIFICATION Spec
INVARIANTS Stable AutoIsDetected
CHECK_DEADLOCK FALSE
CONSTANTS
 Mode = "tour"
 Big = FALSE
