-------------------------------- MODULE C10 --------------------------------
(* Loaded XGBoost (strict comparison) and scikit-learn models.             *)
EXTENDS Loader, JudgeBase
Full(r) == [k \in 1..Len(r.forest) |-> [w |-> "1", root |-> Dec(r.forest[k].root)]]
Verdict(r) ==
    IF r.fmt = "XGBoost" THEN LoadVerdict(r, Full(r), Lt, Free)
    ELSE LoadVerdict(r, Full(r), Le, Eq)
         \cup (IF r.out.st # "ok" THEN {} ELSE
               IF r.out.base = (IF r.base = "" THEN "none" ELSE RF64(RDec(r.base))) /\ r.out.lr = (IF r.lr = "" THEN "1" ELSE RF64(RDec(r.lr)))
               THEN {} ELSE {"base score or learning rate of the file"})
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
