-------------------------------- MODULE C23 --------------------------------
(* Query-wise, class-wise and label-wise breakdowns.                       *)
EXTENDS Analysis, JudgeBase

(* values of a metric for the queries of a dataset, as the code computes   *)
(* them one by one; each is checked                                        *)
ValuesHold(r, T) == \A d \in 1..Len(r.data) : \A m \in 1..Len(r.models) :
    LET s == TLCEval(FullScores(r.models[m], T[d][m]))
        qs == TLCEval(QueriesOf(r.data[d], s)) IN
    \A x \in 1..Len(r.metrics) : \A q \in 1..Len(qs) : AgreesIn(r.metrics[x].name, r.metrics[x].p, qs, qs[q], r.vals[d][m][x][q])

AllVals(r) == FoldLeft(LAMBDA a, b : a \o b, <<>>, FoldLeft(LAMBDA a, b : a \o b, <<>>, FoldLeft(LAMBDA a, b : a \o b, <<>>, r.vals)))
AllScores(r, S) == FoldLeft(LAMBDA a, b : a \o b, <<>>, FoldLeft(LAMBDA a, b : a \o b, <<>>, S))

(* range of the thresholds: as asked, or from all the values               *)
Lower(e, vs) == IF e.start = "none" THEN LeastOf(vs) ELSE e.start
Upper(e, vs) == IF e.end = "none" THEN MostOf(vs) ELSE e.end
MaxQueries(r) == Max({Len(r.data[d].sizes) : d \in 1..Len(r.data)})
Bins(r, e) == IF e.bins = 0 THEN MaxQueries(r) ELSE e.bins

QueryWise(r, e) ==
    LET vs == TLCEval(Defined(AllVals(r)))
        lo == Lower(e, vs)
        hi == Upper(e, vs)
        n == Bins(r, e)
    IN IF ~ EdgesOf(lo, hi, n, e.edges) THEN {"thresholds of the query-wise table"}
       ELSE Fails("shares of the query-wise table", \A d \in 1..Len(r.data) : \A m \in 1..Len(r.models) : \A x \in 1..Len(r.metrics) :
                \A k \in 1..n : Share(lo, hi, n, k, r.vals[d][m][x], e.data[d][m][x][k]))

Graded(r, S, e) ==
    LET vs == TLCEval(AllScores(r, S))
        lo == Lower(e, vs)
        hi == Upper(e, vs)
        n == Bins(r, e)
        having(d, m, l) == LET ix == SelectSeq([a \in 1..Len(r.data[d].y) |-> a], LAMBDA a : r.data[d].y[a] = l)
                           IN [j \in 1..Len(ix) |-> S[d][m][ix[j]]]
    IN IF ~ EdgesOf(lo, hi, n, e.edges) THEN {"thresholds of the graded relevance table"}
       ELSE IF {e.labels[j] : j \in 1..Len(e.labels)} # UNION {{r.data[d].y[a] : a \in 1..Len(r.data[d].y)} : d \in 1..Len(r.data)}
       THEN {"labels of the graded relevance table"}
       ELSE Fails("shares of the graded relevance table", \A d \in 1..Len(r.data) : \A m \in 1..Len(r.models) : \A j \in 1..Len(e.labels) :
                LET v == TLCEval(having(d, m, e.labels[j])) IN
                \A k \in 1..n : Share(lo, hi, n, k, v, e.data[d][m][j][k]))

(* the mean over the queries of class c; open when some value is undefined *)
ClassMean(vals, cls, c, val) ==
    LET ix == SelectSeq([q \in 1..Len(cls) |-> q], LAMBDA q : cls[q] = c)
        v == [j \in 1..Len(ix) |-> vals[ix[j]]]
    IN \/ Overall("", v, val)
       \/ val = "nan" /\ \E j \in 1..Len(v) : v[j] = "nan"
Classes(r, e) ==
    IF {e.names[j] : j \in 1..Len(e.names)} # UNION {{e.cls[d][q] : q \in 1..Len(e.cls[d])} : d \in 1..Len(e.cls)}
    THEN {"classes of the query-class table"}
    ELSE Fails("means of the query-class table", \A d \in 1..Len(r.data) : \A m \in 1..Len(r.models) : \A x \in 1..Len(r.metrics) :
            \A j \in 1..Len(e.names) : ClassMean(r.vals[d][m][x], e.cls[d], e.names[j], e.data[d][m][x][j]))
Verdict(r) ==
    LET T == TLCEval([d \in 1..Len(r.data) |-> TLCEval([m \in 1..Len(r.models) |-> TLCEval(TermsOf(r.data[d], r.models[m]))])])
        S == TLCEval([d \in 1..Len(r.data) |-> TLCEval([m \in 1..Len(r.models) |-> TLCEval(FullScores(r.models[m], T[d][m]))])])
    IN
    IF r.st # "ok" THEN {"the metrics cannot be evaluated"} ELSE
    Fails("value of a query", ValuesHold(r, T)) \cup
    UNION {LET e == r.tests[j] IN
           IF e.st # "ok" THEN {"the analysis fails"}
           ELSE IF ~ e.axes THEN {"axes"}
           ELSE (CASE e.kind = "query" -> QueryWise(r, e) [] e.kind = "graded" -> Graded(r, S, e) [] e.kind = "class" -> Classes(r, e))
           : j \in 1..Len(r.tests)}
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
