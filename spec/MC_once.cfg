INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b"}
  Kinds = {"add", "del", "ref", "move", "view", "reg", "reg1", "dereg", "apply"}
  FilterNames = {"red"}
  Names = {"~none"}
  MaxViews = 1
  MaxCounts = 0
  MaxActs = 0
  MaxRegs = 2
  Lazy = FALSE
  Emit = FALSE
INVARIANTS InvContents InvCounts InvApplied InvNames InvIndependent InvAgain InvActs InvTree
