SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxOps = 3
  Emit = TRUE
INVARIANTS Correct Disjoint Emitted
CHECK_DEADLOCK FALSE
