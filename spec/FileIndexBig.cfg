SPECIFICATION Spec
CONSTANTS
  RootNames = {"r"}
  Tops = {"r", "o"}
  FileNames = {"a"}
  OtherNames = {"d"}
  Contents = {1, 2}
  Depth = 2
  MaxOps = 3
  MaxPre = 3
  Machine = "new"
  Emit = FALSE
INVARIANTS Converged Proper
PROPERTY Settles
VIEW View
CHECK_DEADLOCK FALSE
