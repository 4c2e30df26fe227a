CONSTANTS MaxRows = 4
          MaxF = 4
INIT Init
NEXT Next
INVARIANTS Refines RoundTrip NoLoss
