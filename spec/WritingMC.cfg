INIT Init
NEXT Next
CONSTANTS MaxPieces = 5
          MaxSize = 3
          Buffer = 4
          Careless = FALSE
          NoClose = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
