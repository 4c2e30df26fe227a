CONSTANTS
  MaxTrees = 6
  MaxStep = 4
  MaxVals = 2
  MaxDocs = 3
INIT Init
NEXT Next
INVARIANTS TreeDone HistDone PairsDone
CHECK_DEADLOCK FALSE
