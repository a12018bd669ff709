SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxOps = 2
  Emit = TRUE
INVARIANTS Correct Disjoint Emitted
CHECK_DEADLOCK FALSE
