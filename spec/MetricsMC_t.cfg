CONSTANTS
  MaxDocs = 4
  MaxLabel = 2
INIT Init
NEXT Next
INVARIANTS OnePass Laws
CHECK_DEADLOCK FALSE
