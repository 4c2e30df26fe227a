INIT Init
NEXT Next
CONSTANTS Calls = 2
          Workers = 2
          Docs = 2
          Trees = 2
          SharedBuffer = FALSE
          SharedNode = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
