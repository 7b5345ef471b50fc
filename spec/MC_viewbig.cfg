INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b", "c", "d"}
  Kinds = {"own", "some"}
  Ops = {"add", "relate", "break", "del", "data", "ref"}
  MaxEdges = 4
  Emit = FALSE
INVARIANT Inv
