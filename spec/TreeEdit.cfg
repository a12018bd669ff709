SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  Emit = TRUE
INVARIANTS OrderFree NoEffectInside Untouched Alone Emitted
CHECK_DEADLOCK FALSE
