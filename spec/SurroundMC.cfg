INIT Init
NEXT Next
CONSTANTS
  Settings = {"a", "b", "c"}
  Values = {1, 2, 3}
  Inputs = {1, 2}
  Careless = FALSE
  Reading = FALSE
  Forgetting = FALSE
INVARIANTS Left Only
CHECK_DEADLOCK FALSE
