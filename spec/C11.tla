-------------------------------- MODULE C11 --------------------------------
(* Loaded LightGBM and Jforests models, from the arrays in the file.       *)
EXTENDS Loader, JudgeBase
Full(r) == [k \in 1..Len(r.written) |->
               [w |-> IF r.fmt = "LightGBM" THEN "1" ELSE F(r.weights[k]), root |-> Dec(WrittenTree(r.written[k]))]]
Verdict(r) == LoadVerdict(r, Full(r), Le, Eq)
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
