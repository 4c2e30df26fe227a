CONSTANTS
  Reset = TRUE
INIT Init
NEXT Next
INVARIANTS RightIdeal
CHECK_DEADLOCK FALSE
