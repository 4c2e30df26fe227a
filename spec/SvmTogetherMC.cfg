CONSTANTS MaxFiles = 3
          MaxRows = 2
          MaxF = 2
INIT Init
NEXT Next
INVARIANTS PaddingIsTogether OwnRows
