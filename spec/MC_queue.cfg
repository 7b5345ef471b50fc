INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b"}
  Kinds = {"add", "del", "move", "addpar", "nremp", "naddc", "ref", "setpe"}
  MainKinds = {"add", "del", "naddc", "setce"}
  MaxQ = 2
  MaxPend = 1
  Emit = FALSE
INVARIANTS InvValid InvQueue Issue Fail Drained
