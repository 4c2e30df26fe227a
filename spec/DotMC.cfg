CONSTANTS
  MaxSplits = 5
  CropLate = FALSE
INIT Init
NEXT Next
INVARIANTS Correct
CHECK_DEADLOCK FALSE
