SPECIFICATION Spec
CONSTANTS
  RootNames = {"r", "s"}
  Tops = {"r", "s", "o"}
  FileNames = {"a.x", "b.x"}
  OtherNames = {"d", "a.y"}
  Contents = {0, 1, 2, 3}
  Depth = 3
  MaxOps = 7
  MaxPre = 6
  Machine = "new"
  Emit = TRUE
INVARIANTS Converged Proper EmitInv
CHECK_DEADLOCK FALSE
