INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b", "c"}
  Kinds = {"add", "del", "delrec", "col", "addpar", "nremp", "move", "view", "apply", "reset"}
  FilterNames = {"anyred", "noreddesc", "flatred"}
  Names = {"~none"}
  MaxViews = 1
  MaxCounts = 0
  MaxActs = 0
  MaxRegs = 0
  Lazy = FALSE
  Emit = FALSE
INVARIANTS InvContents InvCounts InvApplied InvNames InvIndependent InvAgain InvActs InvTree
