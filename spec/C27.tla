-------------------------------- MODULE C27 --------------------------------
(* Statistical significance.                                               *)
EXTENDS Statistics, JudgeBase
An == INSTANCE Analysis

ValuesHold(r) == \A d \in 1..Len(r.data) : \A m \in 1..2 :
    LET s == TLCEval(An!FullScores(r.models[m], TLCEval(An!TermsOf(r.data[d], r.models[m]))))
        qs == TLCEval(An!QueriesOf(r.data[d], s)) IN
    \A x \in {j \in 1..Len(r.metrics) : r.metrics[j].name # "own"} : \A q \in 1..Len(qs) : An!AgreesIn(r.metrics[x].name, r.metrics[x].p, qs, qs[q], r.vals[d][m][x][q])
Verdict(r) ==
    IF r.st # "ok" THEN {"the metrics cannot be evaluated"} ELSE
    Fails("value of a query", ValuesHold(r)) \cup
    UNION {LET e == r.tests[j] IN
           IF e.st # "ok" THEN {"the test fails"} ELSE IF ~ e.axes THEN {"axes"}
           ELSE UNION {LET v == r.vals[d]
                           D == TLCEval(Differences(v[e.a][x], v[e.b][x])) IN
                       Fails("one-sided p-value", Estimates(e.data[d][x][1], OneSided(D), e.n))
                       \cup Fails("two-sided p-value", Estimates(e.data[d][x][2], TwoSided(D), e.n))
                       : d \in 1..Len(r.data), x \in 1..Len(r.metrics)}
           : j \in 1..Len(r.tests)}
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
