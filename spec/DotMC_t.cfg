CONSTANTS
  MaxSplits = 7
  CropLate = FALSE
INIT Init
NEXT Next
INVARIANTS Correct
CHECK_DEADLOCK FALSE
