INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a"}
  Kinds = {"add", "col", "view", "count", "apply", "reset", "capply"}
  FilterNames = {"red"}
  Names = {"w1", "w2", "~none"}
  MaxViews = 3
  MaxCounts = 2
  MaxActs = 0
  MaxRegs = 0
  Lazy = FALSE
  Emit = FALSE
INVARIANTS InvContents InvCounts InvApplied InvNames InvIndependent InvAgain InvActs InvTree
