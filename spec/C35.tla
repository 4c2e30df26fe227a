-------------------------------- MODULE C35 --------------------------------
(* Damaged and foreign model files.                                        *)
EXTENDS Damage, Loader, JudgeBase
Full(r) == [k \in 1..Len(r.forest) |-> [w |-> F(r.forest[k].w), root |-> Dec(r.forest[k].root)]]

(* trees that are certainly, and possibly, all there after a cut at r.at   *)
Count(s, at) == Cardinality({k \in 1..Len(s) : s[k] <= at})
Has(m, fr, strict) == /\ m.n_trees = Len(fr) /\ m.n_nodes = SumNodes(fr) /\ SameLengths(m) /\ Len(m.l) = m.n_nodes
                      /\ (IF strict THEN RepresentsForest(m, fr, Free, Eq) ELSE RepresentsForest(m, fr, Eq, Eq)) /\ Contiguous(m) /\ m.w = [k \in 1..Len(fr) |-> fr[k].w]
SplitsHaveFeatures(m) == \A k \in 1..Len(m.l) : m.l[k] # -1 \/ m.r[k] # -1 => m.f[k] >= 0

Verdict(r) ==
    IF r.out.st # "ok" THEN Fails("an intact file is refused", r.kind # "whole")
    ELSE LET m == r.out.m IN
    CASE r.kind = "whole" -> Fails("an intact file is read as something else", Has(m, Full(r), r.strict))
      [] r.kind = "foreign" -> {"a file that is no such model is accepted"}
      [] r.kind = "cut" -> LET fr == Full(r) IN
            Fails("a cut file is read as something else",
                  \E n \in Count(r.last, r.at)..Count(r.nodes, r.at) : n > 0 /\ Has(m, Prefix(fr, n), r.strict))
      [] r.kind = "damage" ->
            Fails("a damaged file is accepted with incomplete trees",
                  m.n_trees = Len(m.root) /\ m.n_nodes = Len(m.l) /\ SameLengths(m) /\ Sound(m) /\ Contiguous(m) /\ SplitsHaveFeatures(m))
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
