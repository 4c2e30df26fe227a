-------------------------------- MODULE C31 --------------------------------
(* Saved models: m is the model saved, out.m the one loaded again.         *)
EXTENDS Scoring, JudgeBase

RECURSIVE TreeAt(_, _)
TreeAt(m, n) == IF m.l[n + 1] = -1 /\ m.r[n + 1] = -1 THEN [o |-> m.v[n + 1]]
                ELSE [f |-> m.f[n + 1], t |-> m.v[n + 1], l |-> TreeAt(m, m.l[n + 1]), r |-> TreeAt(m, m.r[n + 1])]
Eq(a, b) == a = b
Any2(a, b) == TRUE

Verdict(r) ==
    IF ~ Sound(r.m) THEN {}
    ELSE IF r.fmt # "QuickRank"
    THEN Fails("saving in an unsupported format reports success", r.out.st = "exc" \/ r.out.status = FALSE)
         \cup Fails("saving in an unsupported format writes a file", ~ r.out.file)
    ELSE IF r.out.st # "ok" THEN {"the model cannot be saved and loaded"}
    ELSE LET m == r.m
             b == r.out.m
             fr == [k \in 1..Len(m.root) |-> [w |-> m.w[k], root |-> TreeAt(m, m.root[k])]]
             shape == RepresentsForest(b, fr, Any2, Any2)
         IN  Fails("saving reports failure", r.out.status = TRUE)
        \cup Fails("number of trees or nodes", Len(b.root) = Len(m.root) /\ r.out.n_trees = Len(m.root) /\ Len(b.l) = SumNodes(fr))
        \cup Fails("structure of the trees", shape)
        \cup Fails("thresholds or leaf outputs", shape => RepresentsForest(b, fr, Eq, Eq))
        \cup Fails("weights", b.w = m.w)
        \cup Fails("a row reaches another leaf",
                   shape => \A a \in 1..Len(r.X) : \A k \in 1..Len(m.root) :
                       Len(r.out.reach[a]) = Len(m.root) /\ LET n == LeafAt(m, k, r.X[a]) IN r.out.reach[a][k] = m.v[n + 1])
        \cup Fails("saving changes the model", r.after)
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
