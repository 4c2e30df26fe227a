------------------------------- MODULE CallsMC -------------------------------
(***************************************************************************)
(* A program written against the documentation calls a library whose       *)
(* parameters may have been put in another order (Swapped), or whose       *)
(* values for what is left out may have changed (Changed): then some way   *)
(* of writing some call is understood differently, and in the library as   *)
(* documented none is.                                                     *)
(***************************************************************************)
EXTENDS Calls
CONSTANTS Swapped, Changed
VARIABLES f, others, w
vars == <<f, others, w>>
Small == {g \in DOMAIN Signatures : Len(Signatures[g]) \in 1..7}
(* the library: parameter j of the documentation is its parameter At(j)    *)
At(s, j) == IF Swapped /\ Cardinality(Optional(s)) > 1 THEN LET a == CHOOSE x \in Optional(s) : \A y \in Optional(s) : x <= y
                                                              b == CHOOSE x \in Optional(s) : \A y \in Optional(s) : x >= y IN
                                                          IF j = a THEN b ELSE IF j = b THEN a ELSE j ELSE j
Default(s, j) == IF Changed /\ j \in Optional(s) THEN "changed" ELSE s[j].v
Understood(s, meaning, x) == [j \in 1..Len(s) |-> IF At(s, j) <= x.k THEN meaning[At(s, j)]
                                                  ELSE IF \E y \in 1..Len(x.kw) : x.kw[y] = j THEN meaning[j] ELSE Default(s, j)]
Init == /\ f \in Small /\ others \in SUBSET Optional(Signatures[f])
        /\ w \in Writings(Signatures[f], others, FALSE)
Next == UNCHANGED vars
Same == Understood(Signatures[f], Meaning(Signatures[f], others), w) = Meaning(Signatures[f], others)
Bound == Bind(Signatures[f], Meaning(Signatures[f], others), w) = Meaning(Signatures[f], others)
=============================================================================
