CONSTANTS MaxRows = 4
          MaxTok = 2
          MaxF = 2
INIT Init
NEXT Next
INVARIANTS AcceptedIsFaithful RefusedIsDoubtful OneReading AgreesWithC01
