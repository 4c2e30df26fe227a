CONSTANTS Cutoffs = {"", "1", "12"}
          Thresholds = {"", "1", "2"}
          Own = {"", "x", "my 1"}
INIT Init
NEXT Next
INVARIANTS ToldApart Classes
