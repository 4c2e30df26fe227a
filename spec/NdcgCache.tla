------------------------------ MODULE NdcgCache ------------------------------
(***************************************************************************)
(* A metric object that caches the best possible values of the datasets it *)
(* has evaluated and walks along them query by query.  Evaluations may     *)
(* fail in the middle, and single queries may be evaluated at any time.    *)
(* Every answer must use the best value of the query it is asked about.    *)
(* Queries are identified by number; dataset d has the queries DS[d].      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Reset      \* whether an evaluation, failed or not, forgets its position
VARIABLES cache, cur, pos, run, ok
DS == << <<1, 2>>, <<3>>, <<2, 1, 3>> >>
Queries == 1..3
None == 0
Init == cache = [d \in 1..Len(DS) |-> <<>>] /\ cur = None /\ pos = None /\ run = 0 /\ ok = TRUE
(* the best value used for query q, given the position *)
Used(q, p) == IF p = None THEN q ELSE IF p <= Len(cache[cur]) THEN cache[cur][p] ELSE -1
Begin(d) == /\ run = 0 /\ cache' = [cache EXCEPT ![d] = DS[d]] /\ cur' = d /\ pos' = 1 /\ run' = 1 /\ UNCHANGED ok
Step == /\ run > 0 /\ run <= Len(DS[cur])
        /\ ok' = (ok /\ Used(DS[cur][run], pos) = DS[cur][run]) /\ pos' = pos + 1 /\ run' = run + 1 /\ UNCHANGED <<cache, cur>>
End == /\ run > 0 /\ run > Len(DS[cur]) /\ run' = 0 /\ pos' = (IF Reset THEN None ELSE pos) /\ UNCHANGED <<cache, cur, ok>>
Fail == /\ run > 0 /\ run' = 0 /\ pos' = (IF Reset THEN None ELSE pos) /\ UNCHANGED <<cache, cur, ok>>
Single(q) == /\ run = 0 /\ ok' = (ok /\ Used(q, pos) = q) /\ pos' = (IF pos = None THEN None ELSE pos + 1) /\ UNCHANGED <<cache, cur, run>>
Next == (\E d \in 1..Len(DS) : Begin(d)) \/ Step \/ End \/ Fail \/ \E q \in Queries : Single(q)
RightIdeal == ok
=============================================================================
