CONSTANTS MaxN = 24
INIT Init
NEXT Next
INVARIANTS CircleAgrees Partition OnceEach Sizes
