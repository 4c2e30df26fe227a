CONSTANTS
  MaxSplits = 6
INIT Init
NEXT Next
INVARIANTS Depths Done
CHECK_DEADLOCK FALSE
