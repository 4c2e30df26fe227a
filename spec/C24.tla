-------------------------------- MODULE C24 --------------------------------
(* Rank confusion matrices.                                                *)
EXTENDS Analysis, JudgeBase
Lower(a, b) == RLt(a, b)
Any2(a, b) == TRUE
Matrix(r, S, e) ==
    LET labels == {e.labels[j] : j \in 1..Len(e.labels)} IN
    IF labels # UNION {{r.data[d].y[a] : a \in 1..Len(r.data[d].y)} : d \in 1..Len(r.data)} \/ Cardinality(labels) # Len(e.labels)
    THEN {"labels of the matrix"}
    ELSE UNION {LET qs == TLCEval(QueriesOf(r.data[d], S[d][m]))
                    M(a, b) == e.data[d][m][a][b]
                    n == Len(e.labels)
                    P(a, b) == PairsOf(qs, e.labels[a], e.labels[b], Lower)
                    N(a, b) == PairsOf(qs, e.labels[a], e.labels[b], Any2) IN
                UNION {IF a = b THEN Fails("pairs of the same label are counted", e.skip => M(a, b) = 0)
                       ELSE Fails("misses pairs ranked in that order", M(a, b) >= P(a, b))
                            \cup Fails("the counts of two labels do not add up", M(a, b) + M(b, a) = N(a, b)) : a \in 1..n, b \in 1..n}
                : d \in 1..Len(r.data), m \in 1..Len(r.models)}
Verdict(r) ==
    LET S == TLCEval([d \in 1..Len(r.data) |-> TLCEval([m \in 1..Len(r.models) |->
                 TLCEval(FullScores(r.models[m], TermsOf(r.data[d], r.models[m])))])])
    IN UNION {LET e == r.tests[j] IN
              IF e.st # "ok" THEN {"the analysis fails"} ELSE IF ~ e.axes THEN {"axes"} ELSE Matrix(r, S, e)
              : j \in 1..Len(r.tests)}
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
