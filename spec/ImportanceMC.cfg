CONSTANTS
  MaxSplits = 2
  NumRows = 2
INIT Init
NEXT Next
INVARIANTS Segments Done
CHECK_DEADLOCK FALSE
