CONSTANTS
  Rows = 3
  Trees = 3
  Workers = 3
INIT Init
NEXT Next
INVARIANTS Decomposes OnceEach NoRace
CHECK_DEADLOCK FALSE
