CONSTANTS MaxRows = 3
          MaxTok = 2
          MaxF = 3
INIT Init
NEXT Next
INVARIANTS AcceptedIsFaithful RefusedIsDoubtful OneReading AgreesWithC01
