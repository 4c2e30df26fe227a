CONSTANTS
  Values = {1, 2}
  Cells = {1, 2, 3}
  Sharing = FALSE
  Bound = FALSE
  Numbered = FALSE
INIT Init
NEXT Next
INVARIANTS Own
CHECK_DEADLOCK FALSE
