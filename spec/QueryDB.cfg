SPECIFICATION Spec
VIEW view
INVARIANTS Once Right Listed Exactly
PROPERTY Ends
