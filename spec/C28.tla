-------------------------------- MODULE C28 --------------------------------
(* Bias-variance decomposition: the calls received by the training         *)
(* functions, in order, and the reported terms.  Rows are identified by    *)
(* their numbers in the dataset (0: not a row of the dataset).             *)
EXTENDS Statistics, JudgeBase
An == INSTANCE Analysis

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
(* the query of row a (1..)                                                *)
QueryOf(sizes, a) == CHOOSE q \in 1..Len(sizes) : An!Before(sizes, q) < a /\ a <= An!Before(sizes, q) + sizes[q]
RowsOfQuery(sizes, q) == [j \in 1..sizes[q] |-> An!Before(sizes, q) + j]
(* the rows and query lengths of a training set are whole queries          *)
WholeQueries(sizes, rows, lens) ==
    /\ Sum(lens) = Len(rows)
    /\ \A k \in 1..Len(lens) : \E q \in 1..Len(sizes) :
          SubSeq(rows, An!Before(lens, k) + 1, An!Before(lens, k) + lens[k]) = RowsOfQuery(sizes, q)
CallVerdict(D, c, k) ==
    LET n == Len(D.y)
        Tr == {c.train[j] : j \in 1..Len(c.train)}
        Te == {c.test[j] : j \in 1..Len(c.test)}
        qs(A) == {QueryOf(D.sizes, a) : a \in A}
    IN IF 0 \in Tr \cup Te THEN {"rows are altered"} ELSE
       Fails("queries are both trained on and scored", qs(Tr) \cap qs(Te) = {})
       \cup Fails("rows are repeated or missing", Len(c.train) = Cardinality(Tr) /\ Len(c.test) = Cardinality(Te) /\ Tr \cup Te = 1..n)
       \cup Fails("labels of the training set", c.labels = [j \in 1..Len(c.train) |-> D.y[c.train[j]]])
       \cup Fails("query lengths of the training set", WholeQueries(D.sizes, c.train, c.lens))

(* calls one after the other, cut where all rows have been scored; each    *)
(* iteration becomes the sequence of the scores of all rows, or <<>>       *)
Iterations(n, calls) ==
    LET RECURSIVE go(_, _, _)
        go(k, seen, scores) ==
            IF k > Len(calls) THEN IF seen = {} THEN <<>> ELSE << <<>> >>
            ELSE LET c == calls[k]
                     T == {c.test[j] : j \in 1..Len(c.test)}
                     s2 == TLCEval([a \in 1..n |-> IF a \in T THEN c.out[CHOOSE j \in 1..Len(c.test) : c.test[j] = a] ELSE scores[a]])
                 IN IF T \cap seen # {} THEN << <<>> >>
                    ELSE IF T \cup seen = 1..n THEN <<s2>> \o go(k + 1, {}, s2)
                    ELSE go(k + 1, seen \cup T, s2)
    IN go(1, {}, [a \in 1..n |-> "0"])

Three(e, Z, t) ==      \* reported error, bias, variance
    LET er == ErrorOf(Z, t)  bi == BiasOf(Z, t)  va == VarianceOf(Z)
        tol(x) == RMul("1/20000", RAdd(RAbs(x), RAdd("1/100", er)))
        near(v, x) == RFin(v) /\ RLe(RAbs(RSub(v, x)), tol(x))
    IN Fails("error", near(e[1], er)) \cup Fails("bias", near(e[2], bi)) \cup Fails("variance", near(e[3], va))
       \cup Fails("error is bias plus variance", RFin(e[1]) /\ RFin(e[2]) /\ RFin(e[3]) /\ RLe(RAbs(RSub(e[1], RAdd(e[2], e[3]))), tol(er)))
(* transpose: iterations of sequences into rows                            *)
Matrix(its) == [a \in 1..Len(its[1]) |-> [l \in 1..Len(its) |-> its[l][a]]]
QMatrix(x, D, its) ==
    LET v == TLCEval([l \in 1..Len(its) |-> TLCEval(LET qs == An!QueriesOf(D, its[l]) IN
                 [q \in 1..Len(qs) |-> LET V == An!Values(x, qs[q]) IN IF Cardinality(V) = 1 THEN CHOOSE w \in V : TRUE ELSE "nan"])])
    IN Matrix(v)
Group(r, d, a) ==
    LET D == r.data[d]
        calls == r.calls[d][a]
        wrong == UNION {CallVerdict(D, calls[k], k) : k \in 1..Len(calls)}
        its == TLCEval(Iterations(Len(D.y), calls))
        nm == Len(r.metrics)
        of(x) == IF Len(its) = r.L THEN its ELSE SubSeq(its, (x - 1) * r.L + 1, x * r.L)
    IN IF wrong # {} THEN wrong
       ELSE IF \E l \in 1..Len(its) : its[l] = <<>> THEN {"rows are not scored exactly once in every iteration"}
       ELSE IF Len(its) # r.L /\ Len(its) # nm * r.L THEN {"number of iterations"}
       ELSE Fails("more folds than asked", Len(calls) <= r.k * Len(its))
            \cup (* every iteration has the very same folds, by chance less often than once in a million (35 to the power 4) *)
              Fails("the queries are not shuffled",
                    LET T == {{calls[u].test[j] : j \in 1..Len(calls[u].test)} : u \in 1..Len(calls)}
                    IN (/\ Len(D.sizes) >= 8 /\ Len(its) >= 5
                        /\ \E A \in T : Cardinality({QueryOf(D.sizes, row) : row \in A}) > 1) => Cardinality(T) * Len(its) > Len(calls))
            \cup UNION {LET e == r.res[d][x][a]  m == r.metrics[x] IN
                        IF m.name = "MSE" THEN Three(e, Matrix(of(x)), D.y)
                        ELSE LET Z == TLCEval(QMatrix(m, D, of(x))) IN
                             IF \E q \in 1..Len(Z) : \E l \in 1..Len(Z[q]) : Z[q][l] = "nan" THEN {}
                             ELSE Three(e, Z, [q \in 1..Len(Z) |-> "1"])
                        : x \in 1..nm}
Verdict(r) ==
    IF r.st # "ok" THEN {"the analysis fails"} ELSE IF ~ r.axes THEN {"axes"}
    ELSE UNION {Group(r, d, a) : d \in 1..Len(r.data), a \in 1..Len(r.algos)}
         \cup Fails("the dataset is modified", r.kept)
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
