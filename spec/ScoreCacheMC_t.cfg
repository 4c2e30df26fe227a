CONSTANTS
  MaxVer = 2
  Broken = FALSE
  Objs = {1, 2, 3}
INIT Init
NEXT Next
INVARIANTS AnswersAllowed
CHECK_DEADLOCK FALSE
