-------------------------------- MODULE C09 --------------------------------
(* Loaded QuickRank models.                                                *)
EXTENDS Loader, JudgeBase
Full(r) == [k \in 1..Len(r.forest) |-> [w |-> F(r.forest[k].w), root |-> Dec(r.forest[k].root)]]
Verdict(r) == LoadVerdict(r, Full(r), Le, Eq)
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
