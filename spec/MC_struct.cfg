INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b", "c"}
  Kinds = {"new", "add", "del", "move", "addpar", "nremp", "naddc"}
  Tags = {"red"}
  MaxPend = 1
  Emit = FALSE
  Start = "empty"
INVARIANTS InvValid InvWell InvRefused InvCircular InvDel InvAdd InvMove InvRelate InvFlags InvArrive InvPlaces InvMust
