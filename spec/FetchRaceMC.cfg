INIT Init
NEXT Next
CONSTANTS
  Procs = {1, 2}
  Forcing = {2}
  Shared = FALSE
  MayDie = TRUE
INVARIANTS CompleteOrAbsent AnswersComplete FailuresExplained Stays
CHECK_DEADLOCK FALSE
