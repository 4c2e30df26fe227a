-------------------------------- MODULE C25 --------------------------------
(* Feature importance.                                                     *)
EXTENDS Importance, JudgeBase

Before(sizes, q) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(sizes, 1, q - 1))
QValue(name, y, s) ==
    CASE name = "AE" -> RSumSeq([k \in 1..Len(y) |-> RAbs(RSub(y[k], s[k]))])
      [] name = "SE" -> RSumSeq([k \in 1..Len(y) |-> LET x == RSub(y[k], s[k]) IN RTrunc(RMul(x, x), 120)])
      [] name = "MX" -> RSub(FoldLeft(LAMBDA a, b : RMax(a, b), s[1], s), y[1])
EvalOf(name, y, sizes, s) ==
    RDiv(RSumSeq([q \in 1..Len(sizes) |-> LET b == Before(sizes, q) IN
                      QValue(name, SubSeq(y, b + 1, b + sizes[q]), SubSeq(s, b + 1, b + sizes[q]))]), R(Len(sizes)))

Biggest(x) == FoldLeft(LAMBDA a, b : RMax(a, RAbs(b)), "0", x)
Size(r, T) == LET b == RAdd("1", RMax(Biggest(r.y), RSumSeq([k \in 1..Len(T) |-> RMul(RAbs(r.m.w[k]), Biggest(T[k].run.last))])))
              IN RMul(R(Len(r.y) + 4), RMul(b, b))
MaxRaw(x) == FoldLeft(LAMBDA a, b : RMax(a, b), x[1], x)
Test(r, T, e) ==
    LET sq == e.metric \in {"default", "MSE", "RMSE"}
        credit(t, s) == IF sq THEN SquareCredit(t, s, Len(r.y)) ELSE MetricCredit(t, s, LAMBDA p : EvalOf(e.metric, r.y, r.sizes, p))
        counted(t, s) == ~ sq \/ SquareCounted(t, s)
        tot == TLCEval([f \in 1..r.nf |-> Total(r.m, T, f - 1, credit)])
        num == TLCEval([f \in 1..r.nf |-> Tally(r.m, T, f - 1, counted)])
        tol(f) == RMul(RDiv(R(num[f] + 1), "1000000"), Size(r, T))
        top == FoldLeft(LAMBDA a, b : RMax(a, b), tot[1], tot)
        raw(f, v) == IF e.metric = "RMSE"
                     THEN RLe("0", v) /\ RLe(RAbs(RSub(RMul(v, v), tot[f])), tol(f))
                     ELSE RLe(RAbs(RSub(v, tot[f])), tol(f))
    IN IF Len(e.imp) # r.nf \/ Len(e.count) # r.nf \/ Len(e.raw) # r.nf THEN {"one value per feature"} ELSE
       Fails("the credit of a feature", \A f \in 1..r.nf : RFin(e.raw[f]) /\ raw(f, e.raw[f]))
       \cup Fails("the features are not listed in order", e.features = [f \in 1..r.nf |-> f - 1])
       \cup Fails("the count of a feature", \A f \in 1..r.nf : e.count[f] = R(num[f]))
       \cup Fails("a feature that is not used", \A f \in 1..r.nf : (\A k \in 1..Len(r.m.f) : r.m.l[k] = -1 \/ r.m.f[k] # f - 1) => e.raw[f] = "0")
       \cup Fails("normalisation by the most important feature",
                  (\E f \in 1..r.nf : RLe(top, tol(f))) \/ RLe(MaxRaw(e.raw), "0") \/
                  \A f \in 1..r.nf : RFin(e.imp[f]) /\ (RClose(RMul(e.imp[f], MaxRaw(e.raw)), e.raw[f], "1/10000", RMul("1/1000", MaxRaw(e.raw)))
                                                   \/ raw(f, RMul(e.imp[f], MaxRaw(e.raw)))))   \* two runs: the sums differ in rounding
(* which splits count depends on the rows, not on what earlier trees did   *)
Repeated(r) ==
    IF r.out.st # "ok" THEN {"the analysis fails"} ELSE
    LET T == TLCEval(Runs(r.m, r.X, r.y))
        counted(t, s) == r.metric # "MSE" \/ SquareCounted(t, s)
    IN Fails("the count of a feature", Len(r.out.count) = r.nf /\ \A f \in 1..r.nf : r.out.count[f] = R(r.copies * Tally(r.m, T, f - 1, counted)))
Many(r) ==
    IF r.out.st # "ok" THEN {"the analysis fails"} ELSE
    LET o == r.out IN
    Fails("features with large numbers", o.n = r.nf /\ o.last = r.nf - 1 /\ o.imp = "1" /\ o.count = "1" /\ o.total = "1")

Verdict(r) ==
    IF r.kind = "repeated" THEN Repeated(r) ELSE IF r.kind = "many" THEN Many(r) ELSE
    IF NumFeatures(r.m) > r.nf THEN Fails("a model that uses missing features is analysed", \A j \in 1..Len(r.tests) : r.tests[j].st = "exc")
    ELSE LET T == TLCEval(Runs(r.m, r.X, r.y)) IN
         UNION {IF r.tests[j].st # "ok" THEN {"the analysis fails"} ELSE Test(r, T, r.tests[j]) : j \in 1..Len(r.tests)}
         \cup Fails("the model or the dataset is modified", r.kept)
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
