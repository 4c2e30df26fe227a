------------------------------- MODULE Scoring -------------------------------
(***************************************************************************)
(* Scores.  m is the flat form of a model together with its learning rate  *)
(* m.lr and base score m.base (rationals).                                 *)
(***************************************************************************)
EXTENDS Forest, Rat

Goes(x, t) == RLe(x, t)              \* at most the threshold: left; a missing value: right

LeafAt(m, k, row) == RouteFlat(m, m.root[k], row, Goes)
Term(m, k, row) == LET n == LeafAt(m, k, row) IN IF n < 0 THEN "nan" ELSE RMul(m.w[k], m.v[n + 1])
Terms(m, row) == [k \in 1..Len(m.root) |-> Term(m, k, row)]

ScoreOf(m, ts) == RAdd(m.base, RMul(m.lr, RSumSeq(ts)))
Score(m, row) == ScoreOf(m, Terms(m, row))
(* contribution of each tree to the score: the first carries the base score *)
Parts(m, ts) == [k \in 1..Len(ts) |-> IF k = 1 THEN RAdd(m.base, RMul(m.lr, ts[k])) ELSE RMul(m.lr, ts[k])]

(* the size of what is added up, which scales rounding                     *)
Magnitude(m, ts) == RAdd(RAbs(m.base), RMul(RAbs(m.lr), RSumSeq([k \in 1..Len(ts) |-> RAbs(ts[k])])))
Ulp == "1/8388608"                   \* 2^-23
Tiny == RPow("1/2", 140)
(* equal up to float32 rounding of a sum of n terms                        *)
Near(y, s, mag, n) == RFin(y) /\ RFin(s) /\ RLe(RAbs(RSub(y, s)), RAdd(RMul(RMul(R(n + 4), Ulp), mag), Tiny))

NumFeatures(m) == LET F == {m.f[k] : k \in 1..Len(m.f)} IN IF F = {} THEN 0 ELSE 1 + CHOOSE a \in F : \A b \in F : b <= a
=============================================================================
