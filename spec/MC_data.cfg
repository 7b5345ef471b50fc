INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b", "c"}
  Kinds = {"addpar", "nremp", "move", "del", "col", "ref"}
  Tags = {"red"}
  MaxPend = 0
  Emit = FALSE
  Start = "full"
INVARIANTS InvValid InvWell InvRefused InvCircular InvDel InvAdd InvMove InvRelate InvFlags InvArrive InvPlaces InvMust
