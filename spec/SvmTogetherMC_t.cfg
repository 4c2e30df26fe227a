CONSTANTS MaxFiles = 3
          MaxRows = 2
          MaxF = 3
INIT Init
NEXT Next
INVARIANTS PaddingIsTogether OwnRows
