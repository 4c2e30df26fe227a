INIT Init
NEXT Next
CONSTANTS MaxTrees = 2
 MaxSplits = 2
INVARIANTS Intact CutFile Safe
CHECK_DEADLOCK FALSE
