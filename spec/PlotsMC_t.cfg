INIT Init
NEXT Next
CONSTANTS
  MaxDim = 3
  MaxPlots = 1
INVARIANTS Recovered Apart
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
