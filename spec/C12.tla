-------------------------------- MODULE C12 --------------------------------
(* Loaded CatBoost models, from the nodes in the CoreML file.              *)
EXTENDS Loader, JudgeBase
Full(r) == [k \in 1..Len(r.written) |-> [w |-> "1", root |-> Dec(MlRoot(r.written[k]))]]
(* the score starts from the bias in the file, unless another start is     *)
(* asked for                                                               *)
Start(r) == RF64(RDec(IF r.given = "" THEN r.bias ELSE r.given))
Verdict(r) == LoadVerdict(r, Full(r), Le, Eq)
              \cup (IF r.out.st # "ok" THEN {} ELSE
                    Fails("the score does not start from the bias of the model",
                          (IF r.out.base = "none" THEN "0" ELSE r.out.base) = Start(r)))
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
