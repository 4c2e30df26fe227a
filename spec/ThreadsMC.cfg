INIT Init
NEXT Next
CONSTANTS
  Threads = {1, 2, 3}
  Data = {1, 2}
  Queries = 3
  SharedPos = FALSE
  SharedData = FALSE
  SharedArray = FALSE
  Forgetful = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
