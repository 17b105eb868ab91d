SPECIFICATION Spec
CONSTANTS
  Mode = "single"
  Vary = FALSE
  Cats = FALSE
  Depth = 12
INVARIANTS TypeOK ValidDocs Restriction
CHECK_DEADLOCK FALSE
