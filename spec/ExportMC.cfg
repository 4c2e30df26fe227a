INIT Init
NEXT Next
CONSTANT MaxSplits = 2
INVARIANTS OncePerNode RoundTrip
CHECK_DEADLOCK FALSE
