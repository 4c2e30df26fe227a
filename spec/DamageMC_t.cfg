INIT Init
NEXT Next
CONSTANTS MaxTrees = 3
 MaxSplits = 2
INVARIANTS Intact CutFile Safe
CHECK_DEADLOCK FALSE
