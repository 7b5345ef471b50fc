INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b", "c"}
  Emit = FALSE
  MaxRel = 3
  Cyclic = TRUE
INVARIANTS InvOrder InvValid InvDropped
