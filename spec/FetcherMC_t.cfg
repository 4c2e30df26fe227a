CONSTANTS
  MaxVer = 3
  MaxCalls = 5
  InPlace = FALSE
  Litter = FALSE
INIT Init
NEXT Next
INVARIANTS Allowed Known Complete Tidy
CHECK_DEADLOCK FALSE
