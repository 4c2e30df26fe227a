INIT Init
NEXT Next
CONSTANT MaxSplits = 3
INVARIANTS OncePerNode RoundTrip
CHECK_DEADLOCK FALSE
