INIT Init
NEXT Next
CONSTANTS
  Procs = {1, 2, 3}
  Forcing = {2, 3}
  Shared = FALSE
  MayDie = TRUE
INVARIANTS CompleteOrAbsent AnswersComplete FailuresExplained Stays
CHECK_DEADLOCK FALSE
