CONSTANTS
  MaxSplits = 3
  NumRows = 3
INIT Init
NEXT Next
INVARIANTS Segments Done
CHECK_DEADLOCK FALSE
