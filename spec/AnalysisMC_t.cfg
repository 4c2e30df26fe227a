CONSTANTS
  MaxTrees = 9
  MaxStep = 6
  MaxVals = 4
  MaxDocs = 4
INIT Init
NEXT Next
INVARIANTS TreeDone HistDone PairsDone
CHECK_DEADLOCK FALSE
