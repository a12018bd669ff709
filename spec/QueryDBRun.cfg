SPECIFICATION Spec
INVARIANTS Once Right Listed Exactly Report
CHECK_DEADLOCK FALSE
