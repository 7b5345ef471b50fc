INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b"}
  Kinds = {"add", "del", "col", "view", "apply", "unapply", "reset", "count", "capply", "cunapply", "addfilt", "remfilt"}
  FilterNames = {"all", "flatred"}
  Names = {"~none"}
  MaxViews = 1
  MaxCounts = 1
  MaxActs = 0
  MaxRegs = 0
  Lazy = TRUE
  Emit = FALSE
INVARIANTS InvContents InvCounts InvApplied InvNames InvIndependent InvAgain InvActs InvTree
