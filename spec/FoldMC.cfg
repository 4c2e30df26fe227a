CONSTANTS MaxN = 14
INIT Init
NEXT Next
INVARIANTS CircleAgrees Partition OnceEach Sizes
