SPECIFICATION Spec
CONSTANTS
  Kind = "vec"
  Depth = 12
INVARIANT TypeOK
CONSTRAINT EmitLeaf
CHECK_DEADLOCK FALSE
