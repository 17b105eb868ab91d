SPECIFICATION Spec
CONSTANTS
  Mode = "walk"
  Depth = 12
  R = 2
  C = 2
  Entries = {0}
  Shift = 0
INVARIANTS TypeOK Laws
CONSTRAINT EmitLeaf
CHECK_DEADLOCK FALSE
