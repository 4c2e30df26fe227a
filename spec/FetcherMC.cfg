CONSTANTS
  MaxVer = 2
  MaxCalls = 3
  InPlace = FALSE
  Litter = FALSE
INIT Init
NEXT Next
INVARIANTS Allowed Known Complete Tidy
CHECK_DEADLOCK FALSE
