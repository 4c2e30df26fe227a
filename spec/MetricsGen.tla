----------------------------- MODULE MetricsGen -----------------------------
(* Every small query: labels and the ranking of its documents.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
T == IOEnv.TIER = "thorough"
Perms(n) == {f \in [1..n -> 1..n] : Cardinality({f[j] : j \in 1..n}) = n}
Cases == UNION {{[y |-> y, s |-> s] : y \in [1..n -> 0..2], s \in Perms(n)} : n \in 1..(IF T THEN 4 ELSE 3)}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
