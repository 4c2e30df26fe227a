-------------------------------- MODULE SvmGen --------------------------------
(* Enumerates every sparsity pattern of files with at most MaxRows rows    *)
(* over features 1..MaxF, as cases for the real loader.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
MaxRows == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3
MaxF == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3
Sub == {SetToSortSeq(S, <) : S \in SUBSET (1..MaxF)}
Cases == UNION {[1..n -> Sub] : n \in 1..MaxRows}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[rows |-> c] : c \in Cases}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
