INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b"}
  Kinds = {"add", "col", "move", "view", "apply", "unapply", "reset"}
  FilterNames = {"red", "anyred", "flatall", "nobluechild"}
  Names = {"~none"}
  MaxViews = 1
  MaxCounts = 0
  MaxActs = 0
  MaxRegs = 0
  Lazy = TRUE
  Emit = FALSE
INVARIANTS InvContents InvCounts InvApplied InvNames InvIndependent InvAgain InvActs InvTree
