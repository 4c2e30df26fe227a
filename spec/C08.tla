-------------------------------- MODULE C08 --------------------------------
(* Equality and hashing of pairs of datasets, and what is answered from a  *)
(* cache keyed by them.                                                    *)
EXTENDS Data, JudgeBase

Same(a, b) == a.X = b.X /\ a.y = b.y /\ View(a.q) = View(b.q) /\ a.nf = b.nf

Verdict(r) ==
    IF r.kind = "keyed" THEN
        Fails("a cached score of another dataset is returned", r.scores = r.fresh_scores)
   \cup Fails("a cached ideal gain of another dataset is used", r.ndcg = r.fresh_ndcg)
    ELSE
    LET s == Same(r.a, r.b)  o == r.out IN
    IF o.st # "ok" THEN {"comparing or hashing fails"} ELSE
        Fails("equality", o.eq = s /\ o.eq2 = s)
   \cup Fails("inequality is not the negation of equality", o.ne = ~ s)
   \cup Fails("the result of a comparison is not a boolean", o.isbool)
   \cup Fails("equal datasets have different hashes", s => o.hasheq)
   \cup Fails("a dictionary keyed by one is not found by an equal one (or is by a different one)", o.indict = s)
   \cup Fails("the hash of a dataset is not stable", o.stable)

Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
