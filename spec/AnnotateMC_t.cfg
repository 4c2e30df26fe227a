CONSTANTS
  MaxSplits = 4
  MaxRows = 3
  Early = FALSE
  Forgotten = FALSE
INIT Init
NEXT Next
INVARIANTS Right Done All Sums
CHECK_DEADLOCK FALSE
