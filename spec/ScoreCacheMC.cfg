CONSTANTS
  MaxVer = 2
  Broken = FALSE
  Objs = {1, 2}
INIT Init
NEXT Next
INVARIANTS AnswersAllowed
CHECK_DEADLOCK FALSE
