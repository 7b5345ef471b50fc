INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b"}
  Kinds = {"add", "del", "delrec", "col", "move", "count", "capply", "cunapply", "cunreg", "creg"}
  FilterNames = {"red", "notred"}
  Names = {"~none"}
  MaxViews = 0
  MaxCounts = 1
  MaxActs = 0
  MaxRegs = 0
  Lazy = TRUE
  Emit = FALSE
INVARIANTS InvContents InvCounts InvApplied InvNames InvIndependent InvAgain InvActs InvTree
