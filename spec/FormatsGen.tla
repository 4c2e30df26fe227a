----------------------------- MODULE FormatsGen -----------------------------
(* Every forest shape within the bounds, as cases for the real loaders.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
T == IOEnv.TIER = "thorough"
MaxSplits == IF T THEN 4 ELSE 3
MaxTrees == 2
RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {[o |-> "."]}
             ELSE UNION {{[l |-> a, r |-> b] : a \in Shapes(i), b \in Shapes(n - 1 - i)} : i \in 0..(n - 1)}
All == UNION {Shapes(n) : n \in 0..MaxSplits}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[shapes |-> s] : s \in UNION {[1..n -> All] : n \in 1..MaxTrees}}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
