SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxOps = 4
  Emit = FALSE
INVARIANTS Correct Disjoint Emitted
CHECK_DEADLOCK FALSE
