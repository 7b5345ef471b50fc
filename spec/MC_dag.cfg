INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b", "c", "d"}
  Kinds = {"addpar", "nremp"}
  Tags = {"red"}
  MaxPend = 0
  Emit = FALSE
  Start = "full"
INVARIANTS InvValid InvWell InvRefused InvCircular InvDel InvAdd InvMove InvRelate InvFlags InvArrive InvPlaces InvMust
