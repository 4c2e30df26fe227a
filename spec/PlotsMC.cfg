INIT Init
NEXT Next
CONSTANTS
  MaxDim = 2
  MaxPlots = 2
INVARIANTS Recovered Apart
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
