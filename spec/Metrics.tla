------------------------------- MODULE Metrics -------------------------------
(***************************************************************************)
(* Ranking metrics of one query: y the labels of its documents, s their    *)
(* predicted scores.  L is the sequence of the labels of the retrieved     *)
(* documents, in decreasing order of score, up to the cutoff.  All numbers *)
(* are rationals.                                                          *)
(* Parameters p: cutoff (0: none), thr, nores, p (persistence or           *)
(* abandonment), impl.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Rat

Indices(q) == 1..Len(q)

(* the orders by decreasing score: one, unless scores are tied             *)
Descending(o, s) == \A k \in 1..(Len(o) - 1) : ~ RLt(s[o[k]], s[o[k + 1]])
Distinct(s) == Cardinality({s[k] : k \in Indices(s)}) = Len(s)
Orders(s) ==
    IF Distinct(s) \/ Len(s) > 5 THEN {SortSeq([k \in Indices(s) |-> k], LAMBDA a, b : RLt(s[b], s[a]))}
    ELSE {o \in [Indices(s) -> Indices(s)] : {o[k] : k \in Indices(s)} = Indices(s) /\ Descending(o, s)}
Cut(o, k) == IF k = 0 \/ k >= Len(o) THEN o ELSE SubSeq(o, 1, k)
Ranked(y, o, k) == LET c == Cut(o, k) IN [j \in 1..Len(c) |-> y[c[j]]]

Count(L, Test(_)) == Cardinality({k \in Indices(L) : Test(L[k])})
Relevant(p, x) == RLe(p.thr, x)
Positive(x) == RLt("0", x)
MaxOf(y) == FoldLeft(LAMBDA a, b : RMax(a, b), y[1], y)

Precision(p, L, y) == RDiv(R(Count(L, LAMBDA x : Relevant(p, x))), R(Len(L)))
Recall(p, L, y) ==
    LET n == Count(y, LAMBDA x : Relevant(p, x)) IN
    IF n = 0 THEN p.nores ELSE RDiv(R(Count(L, LAMBDA x : Relevant(p, x))), R(n))
PrecisionMax(p, L, y) == RDiv(R(Count(L, LAMBDA x : RLe(MaxOf(y), x))), R(Len(L)))
RR(p, L, y) ==
    LET hit == {k \in Indices(L) : Relevant(p, L[k])} IN
    IF hit = {} THEN "0" ELSE RDiv("1", R(Min(hit)))
AP(p, L, y) ==
    LET n == Count(y, Positive)
        prec(k) == RDiv(R(Cardinality({j \in 1..k : Positive(L[j])})), R(k))
        terms == [k \in Indices(L) |-> IF Positive(L[k]) THEN prec(k) ELSE "0"]
    IN IF n = 0 THEN p.nores ELSE RDiv(RSumSeq(terms), R(IF n < Len(L) THEN n ELSE Len(L)))

RBP(p, L, y) ==
    RMul(RSub("1", p.p), RSumSeq([k \in Indices(L) |-> IF Relevant(p, L[k]) THEN RTrunc(RPow(p.p, k - 1), 200) ELSE "0"]))

(* cascade: stop[k] is the probability of stopping at position k           *)
Grade(x, y) == RDiv(RSub(RExp2(x), "1"), RExp2(MaxOf(y)))
Cascade(L, y, Discount(_)) ==
    LET RECURSIVE go(_, _, _)
        go(k, look, acc) ==
            IF k > Len(L) THEN acc
            ELSE LET u == Grade(L[k], y) IN
                 go(k + 1, RTrunc(RMul(look, RSub("1", u)), 200), RAdd(acc, RTrunc(RMul(RMul(look, u), Discount(k)), 200)))
    IN go(1, "1", "0")
ERR(p, L, y) == Cascade(L, y, LAMBDA k : RDiv("1", R(k)))
Pfound(p, L, y) == Cascade(L, y, LAMBDA k : RTrunc(RPow(RSub("1", p.p), k - 1), 200))

Gain(p, x) == IF p.impl = "flat" THEN x ELSE RSub(RExp2(x), "1")
DCG(p, L, y) == RSumSeq([k \in Indices(L) |-> RTrunc(RDiv(Gain(p, L[k]), RLog2(k + 1)), 100)])
Best(y, k) == Cut(SortSeq(y, LAMBDA a, b : RLt(b, a)), k)
NDCG(p, L, y) ==
    LET d == DCG(p, Best(y, p.cutoff), y) IN IF d = "0" THEN p.nores ELSE RTrunc(RDiv(DCG(p, L, y), d), 100)

Value(name, p, L, y) ==
    CASE name = "P"    -> Precision(p, L, y)
      [] name = "R"    -> Recall(p, L, y)
      [] name = "PMax" -> PrecisionMax(p, L, y)
      [] name = "MRR"  -> RR(p, L, y)
      [] name = "MAP"  -> AP(p, L, y)
      [] name = "RBP"  -> RBP(p, L, y)
      [] name = "ERR"  -> ERR(p, L, y)
      [] name = "Pf"   -> Pfound(p, L, y)
      [] name = "DCG"  -> DCG(p, L, y)
      [] name = "NDCG" -> NDCG(p, L, y)

Close(a, b) == IF a = "nan" \/ b = "nan" THEN a = b ELSE RClose(a, b, "1/100000", "1/100000")

(* val is the value of the metric on the query                             *)
Ranks(name, p, q, val) == \E o \in Orders(q.s) : Close(val, Value(name, p, Ranked(q.y, o, p.cutoff), q.y))

-----------------------------------------------------------------------------
(* Errors and correlations                                                 *)

Sq(x) == RMul(x, x)
SumSq(q, o) == RSumSeq([k \in Indices(o) |-> Sq(RSub(q.y[o[k]], q.s[o[k]]))])
Size(q, o) == RSumSeq([k \in Indices(o) |-> Sq(RAdd(RAbs(q.y[o[k]]), RAbs(q.s[o[k]])))])
SquaredError(p, q, val, n) ==     \* val * n is the summed squared error
    \E o \in Orders(q.s) : LET c == Cut(o, p.cutoff)  e == SumSq(q, c) IN
        RFin(val) /\ RLe(RAbs(RSub(RMul(val, R(n)), e)), RAdd(RMul("1/100000", Size(q, c)), "1/1000000000000"))
RootSquaredError(p, q, val) ==
    \E o \in Orders(q.s) : LET c == Cut(o, p.cutoff)  e == SumSq(q, c) IN
        RFin(val) /\ RLe("0", val) /\ RLe(RAbs(RSub(Sq(val), e)), RAdd(RMul("1/50000", Size(q, c)), "1/1000000000000"))

(* val is num / sqrt(den), den > 0                                         *)
Ratio(val, num, den) ==
    /\ RFin(val)
    /\ RLe("0", RMul(val, num))
    /\ RLe(RAbs(RSub(RMul(Sq(val), den), Sq(num))), RMul("1/50000", RMax(Sq(num), RMul("1/1000", den))))

Pairs(q) == {<<a, b>> \in Indices(q.y) \X Indices(q.y) : a < b}
Sgn(a, b) == IF RLt(a, b) THEN -1 ELSE IF RLt(b, a) THEN 1 ELSE 0
Kendall(q, val) ==
    LET c(x) == Cardinality({e \in Pairs(q) : Sgn(q.y[e[1]], q.y[e[2]]) * Sgn(q.s[e[1]], q.s[e[2]]) = x})
        P == c(1)
        Q == c(-1)
        tied(u, v) == Cardinality({e \in Pairs(q) : u[e[1]] = u[e[2]] /\ v[e[1]] # v[e[2]]})
        T == tied(q.y, q.s)
        U == tied(q.s, q.y)
    IN IF P + Q + T = 0 \/ P + Q + U = 0 THEN val = "nan" ELSE Ratio(val, R(P - Q), RMul(R(P + Q + T), R(P + Q + U)))

RanksOf(x) == [k \in Indices(x) |-> RAdd(R(Cardinality({j \in Indices(x) : RLt(x[j], x[k])})),
                                         RDiv(R(1 + Cardinality({j \in Indices(x) : x[j] = x[k]})), "2"))]
Spearman(q, val) ==
    LET n == Len(q.y)
        a == RanksOf(q.y)
        b == RanksOf(q.s)
        mean == RDiv(R(n + 1), "2")
        cov(u, v) == RSumSeq([k \in 1..n |-> RMul(RSub(u[k], mean), RSub(v[k], mean))])
    IN IF cov(a, a) = "0" \/ cov(b, b) = "0" THEN val = "nan" ELSE Ratio(val, cov(a, b), RMul(cov(a, a), cov(b, b)))

-----------------------------------------------------------------------------
(* val is the value of metric name with parameters p on query q            *)
Agrees(name, p, q, val) ==
    CASE name = "MSE"  -> SquaredError(p, q, val, 1)
      [] name = "RMSE" -> RootSquaredError(p, q, val)
      [] name = "K"    -> Kendall(q, val)
      [] name = "Rho"  -> Spearman(q, val)
      [] OTHER         -> Ranks(name, p, q, val)

NumDocs(qs) == FoldLeft(LAMBDA a, q : a + Len(q.y), 0, qs)
(* val is what evaluating a dataset of queries qs reports for its query q  *)
AgreesIn(name, p, qs, q, val) ==
    IF name = "MSE" THEN SquaredError(p, q, val, NumDocs(qs)) ELSE Agrees(name, p, q, val)

(* the overall value given the values of the queries                       *)
Mean(det) ==
    LET d == SelectSeq(det, LAMBDA x : x # "nan") IN IF d = <<>> THEN "nan" ELSE RDiv(RSumSeq(d), R(Len(d)))
(* values of both signs may cancel: rounding errors are relative to sizes  *)
MeanSize(det) == Mean([k \in Indices(det) |-> IF det[k] = "nan" THEN "nan" ELSE RAbs(det[k])])
Overall(name, det, val) ==
    IF name = "MSE" THEN Close(val, RSumSeq(det))
    ELSE LET m == Mean(det) IN
         IF m = "nan" \/ val = "nan" THEN m = val
         ELSE RFin(val) /\ RLe(RAbs(RSub(val, m)), RMul("1/100000", RMax(MeanSize(det), "1/100000")))
=============================================================================
