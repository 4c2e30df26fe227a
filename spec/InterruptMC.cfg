INIT Init
NEXT Next
CONSTANTS
  Data = {"a", "b"}
  Queries = 3
  MaxCuts = 3
  Unguarded = FALSE
  Early = FALSE
INVARIANTS Right Complete
CHECK_DEADLOCK FALSE
