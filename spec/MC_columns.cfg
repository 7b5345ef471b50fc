INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Number = 2
  Orders = {99, 0, 1}
  Looks = {TRUE, FALSE}
  Own = FALSE
  MaxOps = 1
  Emit = FALSE
INVARIANTS InvOnce InvOrder InvNew InvSel InvRows
PROPERTY StepLocal
