SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Emit = TRUE
INVARIANTS OrderFree NoEffectInside Untouched Alone Emitted
CHECK_DEADLOCK FALSE
