INIT Init
NEXT Next
CONSTANTS
  MaxVersion = 4
  MaxSteps = 8
INVARIANTS Consistent Once Answered Fresh
PROPERTIES Settled
CHECK_DEADLOCK FALSE
