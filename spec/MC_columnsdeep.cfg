INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Number = 2
  Orders = {99, 0}
  Looks = {TRUE}
  Own = TRUE
  MaxOps = 2
  Emit = FALSE
INVARIANTS InvOnce InvOrder InvNew InvSel InvRows
PROPERTY StepLocal
