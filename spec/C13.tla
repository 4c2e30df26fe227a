-------------------------------- MODULE C13 --------------------------------
(* Plain scores.                                                           *)
EXTENDS Scoring, JudgeBase
Model(r) == [root |-> r.m.root, w |-> r.m.w, l |-> r.m.l, r |-> r.m.r, v |-> r.m.v, f |-> r.m.f, lr |-> r.lr, base |-> r.base]

Verdict(r) ==
    LET m == Model(r) IN
    IF NumFeatures(m) > r.nf THEN Fails("a model that uses a missing feature is scored", r.out.st = "exc")
    ELSE IF r.out.st # "ok" THEN {"a model that fits the dataset is refused"}
    ELSE LET ts == [a \in 1..Len(r.X) |-> Terms(m, r.X[a])] IN
         Fails("one score per row", r.n = r.out.n /\ Len(r.out.y) = Len(r.X))
    \cup Fails("the score of a row", Len(r.out.y) = Len(r.X) =>
               \A a \in 1..Len(r.X) : LET s == ScoreOf(m, ts[a]) IN
                    IF r.exact THEN r.out.y[a] = s ELSE Near(r.out.y[a], s, Magnitude(m, ts[a]), Len(ts[a])))
    \cup Fails("scoring changes the model", r.after = r.m)
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
