CONSTANTS
  MaxSplits = 8
INIT Init
NEXT Next
INVARIANTS Depths Done
CHECK_DEADLOCK FALSE
