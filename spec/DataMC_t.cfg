CONSTANTS MaxQ = 4
          MaxSize = 2
          NF = 2
          MaxDepth = 2
INIT Init
NEXT Next
INVARIANTS StructureOK RowsOK SplitOK
