SPECIFICATION Spec
CONSTANTS
  Mode = "gen"
  MaxLen = 3
CHECK_DEADLOCK FALSE
