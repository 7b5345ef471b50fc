INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b", "c"}
  MaxDrag = 2
  Emit = FALSE
INVARIANTS InvTree InvDrop InvTarget
