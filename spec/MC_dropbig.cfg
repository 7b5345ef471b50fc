INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b", "c", "d"}
  MaxDrag = 1
  Emit = FALSE
INVARIANTS InvTree InvDrop InvTarget
