SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS NothingAfterDone Balanced
CHECK_DEADLOCK FALSE
