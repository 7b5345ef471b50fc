INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b", "c"}
  Kinds = {"addpar", "naddc", "nset", "nremp", "setpe", "setce"}
  Tags = {"red"}
  MaxPend = 1
  Emit = FALSE
  Start = "full"
INVARIANTS InvValid InvWell InvRefused InvCircular InvDel InvAdd InvMove InvRelate InvFlags InvArrive InvPlaces InvMust
