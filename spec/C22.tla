-------------------------------- MODULE C22 --------------------------------
(* Performance tables.                                                     *)
EXTENDS Analysis, JudgeBase

Perf(r, T, e) ==
    LET S == TLCEval([d \in 1..Len(r.data) |-> TLCEval([m \in 1..Len(r.models) |-> TLCEval(FullScores(r.models[m], T[d][m]))])]) IN
    Fails("the performance of a model", \A d \in 1..Len(r.data) : \A m \in 1..Len(r.models) : \A x \in 1..Len(r.metrics) :
        IsOverall(r.metrics[x], r.data[d], S[d][m], e.data[d][m][x]))
Wise(r, T, e) ==
    LET n(m) == Len(r.models[m].root) IN
    Fails("reported numbers of trees", /\ Reported({n(m) : m \in 1..Len(r.models)}, e.step) \subseteq {e.k[j] : j \in 1..Len(e.k)}
                                       /\ \A j \in 1..Len(e.k) : e.k[j] > 0 /\ (j > 1 => e.k[j - 1] < e.k[j]))
    \cup Fails("the performance of a prefix", \A d \in 1..Len(r.data) : \A m \in 1..Len(r.models) : \A j \in 1..Len(e.k) :
        (e.k[j] > 0 /\ e.k[j] <= n(m)) =>
           LET s == TLCEval(PrefixScores(r.models[m], T[d][m], e.k[j])) IN
           \A x \in 1..Len(r.metrics) : IsOverall(r.metrics[x], r.data[d], s, e.data[d][m][j][x]))
    \cup Fails("undefined beyond the model", \A d \in 1..Len(r.data) : \A m \in 1..Len(r.models) : \A j \in 1..Len(e.k) :
        e.k[j] > n(m) => \A x \in 1..Len(r.metrics) : e.data[d][m][j][x] = "nan")
Avg(r, T, e) ==
    Fails("the average contribution of a tree", \A d \in 1..Len(r.data) : \A m \in 1..Len(r.models) : \A k \in 1..Len(e.data[d][m]) :
        IF k > Len(r.models[m].root) THEN e.data[d][m][k] = "nan"
        ELSE RClose(e.data[d][m][k], Contribution(r.models[m], T[d][m], k), "1/100000", "1/1000"))
    \cup Fails("a column for every tree", \A d \in 1..Len(r.data) : \A m \in 1..Len(r.models) :
                Len(e.data[d][m]) >= Len(r.models[m].root))
Verdict(r) ==
    LET T == TLCEval([d \in 1..Len(r.data) |-> TLCEval([m \in 1..Len(r.models) |-> TLCEval(TermsOf(r.data[d], r.models[m]))])]) IN
    UNION {LET e == r.tests[j] IN
           IF e.st # "ok" THEN {"the analysis fails"}
           ELSE IF ~ e.axes THEN {"axes"}
           ELSE (CASE e.kind = "perf" -> Perf(r, T, e) [] e.kind = "tree" -> Wise(r, T, e) [] e.kind = "avg" -> Avg(r, T, e))
           : j \in 1..Len(r.tests)}
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
