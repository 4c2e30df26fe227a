CONSTANTS
  MaxQueries = 3
  MaxFolds = 5
INIT Init
NEXT Next
INVARIANTS PermDone FoldsDone AddsUp
CHECK_DEADLOCK FALSE
