SPECIFICATION Spec
CONSTANTS
  RootNames = {"r"}
  Tops = {"r", "o"}
  FileNames = {"a"}
  OtherNames = {"d"}
  Contents = {1, 2}
  Depth = 2
  MaxOps = 2
  MaxPre = 2
  Machine = "old"
  Emit = FALSE
INVARIANTS Converged Proper
PROPERTY Settles
VIEW View
CHECK_DEADLOCK FALSE
