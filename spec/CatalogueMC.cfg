INIT Init
NEXT Next
CONSTANTS N = 3
          MaxCalls = 4
INVARIANT Right
CHECK_DEADLOCK FALSE
