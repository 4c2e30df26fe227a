----------------------------- MODULE Statistics -----------------------------
(***************************************************************************)
(* Randomization test: two systems with values a[q] and b[q] for every     *)
(* query; exchanging the values of a set of queries changes the sign of    *)
(* their differences, and every set of queries is equally likely.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Rat

SharedIndices(a, b) == SelectSeq([q \in 1..Len(a) |-> q], LAMBDA q : RFin(a[q]) /\ RFin(b[q]))
Differences(a, b) == LET ix == SharedIndices(a, b) IN [j \in 1..Len(ix) |-> RSub(a[ix[j]], b[ix[j]])]

(* number of sign patterns for every possible sum of the differences       *)
Spread(d) ==
    LET RECURSIVE go(_, _)
        go(k, f) ==
            IF k > Len(d) THEN f
            ELSE LET S == DOMAIN f
                     up == {RAdd(s, d[k]) : s \in S}
                     down == {RSub(s, d[k]) : s \in S}
                     n(t) == (IF RSub(t, d[k]) \in S THEN f[RSub(t, d[k])] ELSE 0)
                             + (IF RAdd(t, d[k]) \in S THEN f[RAdd(t, d[k])] ELSE 0)
                 IN go(k + 1, TLCEval([t \in up \cup down |-> n(t)]))
    IN go(1, ("0" :> 1))
CountOf(f, Test(_)) == FoldLeft(LAMBDA acc, s : IF Test(s) THEN acc + f[s] ELSE acc, 0, SetToSeq(DOMAIN f))
Pow2(n) == RPow("2", n)
(* exact p-values: of a difference at least as large, in favour of the     *)
(* system that is ahead, and in favour of either                           *)
OneSided(d) == LET f == Spread(d)  o == RAbs(RSumSeq(d)) IN RDiv(R(CountOf(f, LAMBDA s : RLe(o, s))), Pow2(Len(d)))
TwoSided(d) == LET f == Spread(d)  o == RAbs(RSumSeq(d)) IN RDiv(R(CountOf(f, LAMBDA s : RLe(o, RAbs(s)))), Pow2(Len(d)))

(* the share x of n random trials is an estimate of p (Bernstein's         *)
(* inequality: a correct estimate is outside with probability 2 exp(-20))  *)
Estimates(x, p, n) ==
    /\ RFin(x) /\ RLe("0", x) /\ RLe(x, "1")
    /\ IF p = "1" THEN x = "1"
       ELSE LET dev == RMul(RMax("0", RSub(RAbs(RSub(x, p)), "1/10000000")), R(n)) IN
            RLe(RMul(dev, dev), RMul("40", RAdd(RMul(R(n), RMul(p, RSub("1", p))), RDiv(dev, "3"))))

-----------------------------------------------------------------------------
(* Bias and variance: rows of Z are instances (or queries), columns        *)
(* iterations; t[row] is the ideal value                                   *)
Sq(x) == RMul(x, x)
MeanSeq(s) == RDiv(RSumSeq(s), R(Len(s)))
RowMeans(Z) == TLCEval([a \in 1..Len(Z) |-> RTrunc(MeanSeq(Z[a]), 160)])
ErrorOf(Z, t) == MeanSeq([a \in 1..Len(Z) |-> MeanSeq([l \in 1..Len(Z[a]) |-> Sq(RSub(Z[a][l], t[a]))])])
BiasOf(Z, t) == LET M == RowMeans(Z) IN MeanSeq([a \in 1..Len(Z) |-> Sq(RSub(M[a], t[a]))])
VarianceOf(Z) == LET M == RowMeans(Z) IN MeanSeq([a \in 1..Len(Z) |-> MeanSeq([l \in 1..Len(Z[a]) |-> Sq(RSub(Z[a][l], M[a]))])])
=============================================================================
