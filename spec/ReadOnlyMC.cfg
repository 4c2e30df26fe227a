INIT Init
NEXT Next
CONSTANTS
  Data = {"a", "b"}
  MaxCells = 7
  InPlace = FALSE
  Reuse = FALSE
INVARIANTS AnswersRight CacheKept AnswersKept
CHECK_DEADLOCK FALSE
