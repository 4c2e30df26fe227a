INIT Init
NEXT Next
CONSTANTS
  Swapped = FALSE
  Changed = FALSE
INVARIANTS Same Bound
CHECK_DEADLOCK FALSE
