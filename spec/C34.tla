-------------------------------- MODULE C34 --------------------------------
(* Exported scikit-learn ensembles, loaded back and scored.                *)
EXTENDS Export, Loader, JudgeBase
Ulp == "1/8388608"
Tiny == RPow("1/2", 140)

RECURSIVE Single(_)
Single(t) == IF IsLeaf(t) THEN [o |-> RF32(t.o)] ELSE [f |-> t.f, t |-> RF32(t.t), l |-> Single(t.l), r |-> Single(t.r)]

Exact(r) == [k \in 1..Len(r.trees) |-> SkTree(r.trees[k])]
Full(ex) == [k \in 1..Len(ex) |-> [w |-> "1", root |-> Single(ex[k])]]

(* what scikit-learn itself predicts is the sum of the exact trees, which  *)
(* a row sees like the single-precision ones unless it sits on a rounding  *)
Same(ex, fr, row) == \A k \in 1..Len(ex) : RF32(Route(ex[k], row, Le).o) = Route(fr[k].root, row, Le).o
Size(r, ex, row) == RAdd(RAbs(r.base), RMul(RAbs(r.lr), RSumSeq([k \in 1..Len(ex) |-> RAbs(Route(ex[k], row, Le).o)])))
Agrees(r, ex, y, p, row) == RFin(y) /\ RLe(RAbs(RSub(y, p)), RAdd(RMul(RMul(R(Len(ex) + 6), Ulp), Size(r, ex, row)), Tiny))

Verdict(r) ==
    IF r.kind = "other" THEN Fails("a model that cannot be exported is accepted", r.out.st = "exc" /\ r.out.exc = "TypeError")
    ELSE LET ex == TLCEval(Exact(r))  fr == TLCEval(Full(ex)) IN
         LoadVerdict(r, fr, Le, Eq)
    \cup (IF r.out.st # "ok" THEN {} ELSE
             Fails("base score or learning rate of the ensemble", r.out.base = r.base /\ r.out.lr = r.lr)
        \cup Fails("the score of a row", Len(r.out.y) = Len(r.X) /\ \A a \in 1..Len(r.X) : Same(ex, fr, r.X[a]) => Agrees(r, ex, r.out.y[a], r.pred[a], r.X[a])))
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
