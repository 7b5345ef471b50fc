INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = {"a", "b", "c"}
  Kinds = {"own", "flat", "leaf", "some", "none"}
  Ops = {"add", "relate", "break", "del", "data", "ref", "apply"}
  MaxEdges = 3
  Emit = FALSE
INVARIANT Inv
