CONSTANTS
  MaxBlocks = 4
  MaxArrays = 5
  NoBase = FALSE
  NoRelease = FALSE
  Forget = FALSE
INIT Init
NEXT Next
INVARIANTS Safe Tight Exact
CHECK_DEADLOCK FALSE
