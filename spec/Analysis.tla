------------------------------ MODULE Analysis ------------------------------
(***************************************************************************)
(* Effectiveness analyses.  ds is a dataset [X, y, sizes] (rows of queries *)
(* are consecutive), m a model (module Scoring), and t the contributions   *)
(* of the trees of m on the rows of ds: t[row][k] (before base score and   *)
(* learning rate).                                                         *)
(***************************************************************************)
EXTENDS Scoring, Metrics

TermsOf(ds, m) == [a \in 1..Len(ds.X) |-> Terms(m, ds.X[a])]

(* scores of the prefix of k trees                                         *)
PrefixScores(m, t, k) == [a \in 1..Len(t) |-> ScoreOf(m, SubSeq(t[a], 1, k))]
FullScores(m, t) == PrefixScores(m, t, Len(m.root))

Before(sizes, q) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(sizes, 1, q - 1))
Slice(x, sizes, q) == SubSeq(x, Before(sizes, q) + 1, Before(sizes, q) + sizes[q])
QueriesOf(ds, s) == [q \in 1..Len(ds.sizes) |-> [y |-> Slice(ds.y, ds.sizes, q), s |-> Slice(s, ds.sizes, q)]]

(* the smallest and largest value of a metric over the orders of tied      *)
(* documents; both are the value when no scores are tied                   *)
Values(x, q) == IF x.name = "MSE" THEN {SumSq(q, [k \in Indices(q.s) |-> k])}
                ELSE {Value(x.name, x.p, Ranked(q.y, o, x.p.cutoff), q.y) : o \in Orders(q.s)}
Lo(V) == CHOOSE v \in V : \A w \in V : v = w \/ RLt(v, w)
Hi(V) == CHOOSE v \in V : \A w \in V : v = w \/ RLt(w, v)
Over(x, ds, seq) == IF x.name = "MSE" THEN RDiv(RSumSeq(seq), R(Len(ds.y))) ELSE Mean(seq)
(* val is the overall value of metric x on ds with scores s                *)
IsOverall(x, ds, s, val) ==
    LET qs == QueriesOf(ds, s)
        V == TLCEval([q \in 1..Len(qs) |-> TLCEval(Values(x, qs[q]))])
        lo == Over(x, ds, [q \in 1..Len(qs) |-> Lo(V[q])])
        hi == Over(x, ds, [q \in 1..Len(qs) |-> Hi(V[q])])
        tol == RMul("1/50000", RMax("1/2", RMax(RAbs(lo), RAbs(hi))))
    IN IF lo = "nan" \/ val = "nan" THEN lo = val
       ELSE RFin(val) /\ RLe(RSub(lo, tol), val) /\ RLe(val, RAdd(hi, tol))

-----------------------------------------------------------------------------
(* numbers of trees that a tree-wise table must report                     *)
Multiples(n, step) == {k \in 1..n : k % step = 0}
Reported(sizes, step) == UNION {Multiples(n, step) \cup {n} : n \in sizes}

(* mean absolute contribution of tree k; the first carries the base score  *)
Contribution(m, t, k) ==
    RDiv(RSumSeq([a \in 1..Len(t) |-> RAbs(Parts(m, t[a])[k])]), R(Len(t)))

-----------------------------------------------------------------------------
(* Cumulative histograms                                                   *)
Width(lo, hi, n) == RDiv(RSub(hi, lo), R(n))
Edge(lo, hi, n, k) == RAdd(lo, RMul(Width(lo, hi, n), R(k)))
Dyadic(a) == LET b == RMul(a, R(1048576)) IN R(RFloorInt(b)) = b
Exact(lo, hi, n) == /\ RLt(RAbs(lo), "1000") /\ RLt(RAbs(hi), "1000")
                    /\ Dyadic(lo) /\ Dyadic(Width(lo, hi, n))
(* v counts below edge k for sure; possibly                                *)
Fuzz(lo, hi) == RMul("1/1000000000000", RMax(RAbs(lo), RAbs(hi)))
Below(lo, hi, n, k, v, f) ==
    /\ RFin(v) /\ RLe(RSub(lo, f), v)
    /\ IF k = n THEN RLe(v, RAdd(hi, f)) ELSE RLt(v, RAdd(Edge(lo, hi, n, k), f))
CountBelow(lo, hi, n, k, vs, f) == Cardinality({j \in 1..Len(vs) : Below(lo, hi, n, k, vs[j], f)})
Share(lo, hi, n, k, vs, val) ==
    LET f == IF Exact(lo, hi, n) THEN "0" ELSE Fuzz(lo, hi)
        a == CountBelow(lo, hi, n, k, vs, RSub("0", f))
        b == CountBelow(lo, hi, n, k, vs, f)
    IN IF vs = <<>> THEN val = "nan" ELSE \E c \in a..b : RClose(val, RDiv(R(c), R(Len(vs))), "1/1000000", "1/1000")
EdgesOf(lo, hi, n, edges) ==
    /\ Len(edges) = n
    /\ \A k \in 1..n : RFin(edges[k]) /\ RLe(RAbs(RSub(edges[k], Edge(lo, hi, n, k))), RMul("1/1000000000", RMax("1/1000000", RMax(RAbs(lo), RAbs(hi)))))
Defined(vs) == SelectSeq(vs, RFin)
LeastOf(vs) == FoldLeft(LAMBDA a, b : RMin(a, b), vs[1], vs)
MostOf(vs) == FoldLeft(LAMBDA a, b : RMax(a, b), vs[1], vs)

-----------------------------------------------------------------------------
(* Rank confusion: pairs of documents of one query, with label a below a   *)
(* document with label b                                                   *)
PairsOf(qs, a, b, Rel(_, _)) ==
    LET inq(q) == Cardinality({e \in Indices(q.y) \X Indices(q.y) :
                                  q.y[e[1]] = a /\ q.y[e[2]] = b /\ Rel(q.s[e[1]], q.s[e[2]])})
    IN FoldLeft(LAMBDA x, q : x + inq(q), 0, qs)
=============================================================================
