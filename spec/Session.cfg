SPECIFICATION Spec
INVARIANTS AssetsSound Enforced HistoryFree
CHECK_DEADLOCK FALSE
CONSTANTS
 Mode = "req"
 Depth = 20
 Big = FALSE
