INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b"}
  Kinds = {"add", "del", "move", "view", "act", "drain", "col", "apply", "unapply"}
  FilterNames = {"anyred"}
  Names = {"~none"}
  MaxViews = 1
  MaxCounts = 0
  MaxActs = 2
  MaxRegs = 0
  Lazy = TRUE
  Emit = FALSE
INVARIANTS InvContents InvCounts InvApplied InvNames InvIndependent InvAgain InvActs InvTree
