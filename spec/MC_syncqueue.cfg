SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Workers = {"w1", "w2"}
  Plans <- PlansOf
  Failing = {"y"}
  Caught = TRUE
INVARIANTS InvAbstract InvLock InvOne InvServed
PROPERTIES AllDone Served
