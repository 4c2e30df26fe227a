-------------------------------- MODULE C14 --------------------------------
(* Detailed scores: leaves, contributions and their sum.                   *)
EXTENDS Scoring, JudgeBase
Model(r) == [root |-> r.m.root, w |-> r.m.w, l |-> r.m.l, r |-> r.m.r, v |-> r.m.v, f |-> r.m.f, lr |-> r.lr, base |-> r.base]

Verdict(r) ==
    IF r.out.st # "ok" THEN {"detailed scoring fails"} ELSE
    LET m == Model(r)  o == r.out  nt == Len(m.root)  nr == Len(r.X)
        ts == [a \in 1..nr |-> Terms(m, r.X[a])]
        shape == /\ Len(o.y) = nr /\ Len(o.part) = nr /\ Len(o.leaves) = nr /\ Len(o.plain) = nr
                 /\ \A a \in 1..nr : Len(o.part[a]) = nt /\ Len(o.leaves[a]) = nt
        near(y, s, mag, n) == IF r.exact THEN y = s ELSE Near(y, s, mag, n)
    IN IF ~ shape THEN {"shape of the results"} ELSE
       Fails("the reported node is not the leaf the splits lead to",
             \A a \in 1..nr : \A k \in 1..nt : o.leaves[a][k] = LeafAt(m, k, r.X[a]))
  \cup Fails("the contribution of a tree",
             \A a \in 1..nr : LET p == Parts(m, ts[a]) IN \A k \in 1..nt :
                 near(o.part[a][k], p[k], RAdd(RAbs(m.base), RAbs(p[k])), 1))
  \cup Fails("contributions add up to the score",
             \A a \in 1..nr : near(o.y[a], RSumSeq(o.part[a]), Magnitude(m, ts[a]), nt))
  \cup Fails("the detailed score of a row", \A a \in 1..nr : near(o.y[a], ScoreOf(m, ts[a]), Magnitude(m, ts[a]), nt))
  \cup Fails("plain and detailed scores differ", \A a \in 1..nr : near(o.plain[a], ScoreOf(m, ts[a]), Magnitude(m, ts[a]), nt))
  \cup Fails("scoring again gives other results", r.again)
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
