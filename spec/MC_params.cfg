INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a"}
  Kinds = {"add", "col", "view", "applyp", "apply", "unapply"}
  FilterNames = {"red", "p1"}
  Names = {"w1", "~none"}
  MaxViews = 2
  MaxCounts = 0
  MaxActs = 0
  MaxRegs = 0
  Lazy = FALSE
  Emit = FALSE
INVARIANTS InvContents InvCounts InvApplied InvNames InvIndependent InvAgain InvActs InvTree
