------------------------------ MODULE DataGen ------------------------------
(* Every layout of small datasets, every split request and every number of *)
(* folds within the bounds, as cases for the real code.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
T == IOEnv.TIER = "thorough"
MaxQ == IF T THEN 4 ELSE 3
MaxSize == IF T THEN 3 ELSE 2
MaxN == IF T THEN 24 ELSE 11
Perms(n) == {p \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => p[a] # p[b]}
Layouts == UNION {{[kind |-> "layout", ids |-> p, sizes |-> s] : p \in Perms(n), s \in [1..n -> 1..MaxSize]} : n \in 1..MaxQ}
Splits == {[kind |-> "split", n |-> n, tr |-> a, va |-> b] : n \in 1..MaxN, a \in 0..10, b \in 0..10}
Folds == {[kind |-> "fold", n |-> n, folds |-> k] : n \in 2..MaxN, k \in 2..MaxN}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Layouts) \o SetToSeq({s \in Splits : s.tr + s.va <= 12}) \o SetToSeq({f \in Folds : f.folds <= f.n}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
