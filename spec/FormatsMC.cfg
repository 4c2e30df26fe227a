CONSTANTS MaxTrees = 2
          MaxSplits = 2
INIT Init
NEXT Next
INVARIANTS Read Weights SameAsFlat Truncations Routing
