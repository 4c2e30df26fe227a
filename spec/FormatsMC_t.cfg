CONSTANTS MaxTrees = 2
          MaxSplits = 4
INIT Init
NEXT Next
INVARIANTS Read Weights SameAsFlat Truncations Routing
