CONSTANTS
  MaxQueries = 4
  MaxFolds = 9
INIT Init
NEXT Next
INVARIANTS PermDone FoldsDone AddsUp
CHECK_DEADLOCK FALSE
