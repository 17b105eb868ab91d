SPECIFICATION Spec
CONSTANTS
  MaxGroups = 40
  Steps = {0, 1, 7, 27}
  Offsets = 4
INVARIANTS Inverse SizeOK Emit
CHECK_DEADLOCK FALSE
