CONSTANTS
  Rows = 2
  Trees = 2
  Workers = 3
INIT Init
NEXT Next
INVARIANTS Decomposes OnceEach NoRace
CHECK_DEADLOCK FALSE
