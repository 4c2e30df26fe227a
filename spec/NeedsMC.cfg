CONSTANTS
  MaxTrees = 3
  MaxSplits = 2
  First = FALSE
  Body = FALSE
  Last = FALSE
INIT Init
NEXT Next
INVARIANT Decided
CHECK_DEADLOCK FALSE
