SPECIFICATION OfSpec
CONSTANTS
  MaxOps = 0
  Emit = FALSE
CHECK_DEADLOCK FALSE
