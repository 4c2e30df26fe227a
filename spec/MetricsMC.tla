------------------------------ MODULE MetricsMC ------------------------------
(***************************************************************************)
(* The metrics computed in one pass over the ranking, document after       *)
(* document, against their definitions; and laws the definitions satisfy.  *)
(***************************************************************************)
EXTENDS Metrics
CONSTANTS MaxDocs, MaxLabel
VARIABLES y, s, cut, k, look, err, pf, rbp, hits, ap, rr
vars == <<y, s, cut, k, look, err, pf, rbp, hits, ap, rr>>
P0 == [cutoff |-> cut, thr |-> "1", nores |-> "1/3", p |-> "1/4", impl |-> "exp"]
Order == CHOOSE o \in Orders(s) : TRUE
L == Ranked(y, Order, cut)
Perms(n) == {f \in [1..n -> 1..n] : Cardinality({f[j] : j \in 1..n}) = n}
Init == \E n \in 1..MaxDocs :
    /\ y \in {[j \in 1..n |-> R(f[j])] : f \in [1..n -> 0..MaxLabel]}
    /\ s \in {[j \in 1..n |-> R(f[j])] : f \in Perms(n)}
    /\ cut \in 0..n
    /\ k = 0 /\ look = "1" /\ err = "0" /\ pf = "0" /\ rbp = "0" /\ hits = 0 /\ ap = "0" /\ rr = "0"
Next == /\ k < Len(L)
        /\ LET x == L[k + 1]
               u == Grade(x, y)
               rel == Relevant(P0, x)
           IN /\ err' = RAdd(err, RDiv(RMul(look, u), R(k + 1)))
              /\ pf' = RAdd(pf, RMul(RMul(look, u), RPow("3/4", k)))
              /\ look' = RMul(look, RSub("1", u))
              /\ rbp' = IF rel THEN RAdd(rbp, RPow("1/4", k)) ELSE rbp
              /\ hits' = IF rel THEN hits + 1 ELSE hits
              /\ ap' = IF rel THEN RAdd(ap, RDiv(R(hits + 1), R(k + 1))) ELSE ap
              /\ rr' = IF rel /\ rr = "0" THEN RDiv("1", R(k + 1)) ELSE rr
        /\ k' = k + 1
        /\ UNCHANGED <<y, s, cut>>
V(name) == Value(name, P0, L, y)
Nrel == Count(y, LAMBDA x : Relevant(P0, x))
OnePass == k = Len(L) =>
    /\ V("ERR") = err /\ V("Pf") = pf /\ V("RBP") = RMul("3/4", rbp) /\ V("MRR") = rr
    /\ V("P") = RDiv(R(hits), R(Len(L)))
    /\ V("R") = IF Nrel = 0 THEN "1/3" ELSE RDiv(R(hits), R(Nrel))
    /\ V("MAP") = IF Nrel = 0 THEN "1/3" ELSE RDiv(ap, R(IF Nrel < Len(L) THEN Nrel ELSE Len(L)))
Unit(x) == RLe("0", x) /\ RLe(x, "1")
Laws == k = 0 =>
    /\ \A n \in {"P", "R", "PMax", "MRR", "MAP", "RBP", "ERR", "Pf"} : Unit(V(n))
    /\ RLe("0", V("NDCG")) /\ RLe(V("NDCG"), "1000001/1000000")
    /\ (Nrel > 0 /\ L = Best(y, cut)) => (Close(V("NDCG"), "1") /\ V("MAP") = "1")
    /\ RLe(V("DCG"), DCG(P0, Best(y, cut), y))
    /\ Nrel = 0 => V("MRR") = "0" /\ V("NDCG") = "1/3"
=============================================================================
