-------------------------------- MODULE C26 --------------------------------
(* Topology reported for a model, given by the arrays m.                   *)
EXTENDS Scoring, JudgeBase, FiniteSetsExt

RECURSIVE TreeAt(_, _)
TreeAt(m, n) == IF m.l[n + 1] = -1 /\ m.r[n + 1] = -1 THEN [o |-> m.v[n + 1]]
                ELSE [f |-> m.f[n + 1], t |-> m.v[n + 1], l |-> TreeAt(m, m.l[n + 1]), r |-> TreeAt(m, m.r[n + 1])]

(* positions as <<depth, column>>, columns as rationals since they are large *)
RECURSIVE Places(_, _, _, _)
Places(t, row, col, leaves) ==
    IF IsLeaf(t) THEN (IF leaves THEN {<<row, col>>} ELSE {})
    ELSE {<<row, col>>} \cup Places(t.l, row + 1, RMul("2", col), leaves)
                        \cup Places(t.r, row + 1, RAdd("1", RMul("2", col)), leaves)


Verdict(r) ==
    LET m == IF r.limit < 0 THEN r.m ELSE Truncate(r.m, r.limit)
        ts == [k \in 1..Len(m.root) |-> TreeAt(m, m.root[k])]
        n == Len(ts)
        hs == [k \in 1..n |-> Height(ts[k])]
        ls == [k \in 1..n |-> NumLeaves(ts[k])]
        per == [k \in 1..n |-> Places(ts[k], 0, "0", r.leaves)]
        want == {<<p[1], p[2], Cardinality({k \in 1..n : p \in per[k]})>> : p \in UNION {per[k] : k \in 1..n}}
        got == {<<c[1], c[2], c[3]>> : c \in ToSet(r.out.cells)}
        (* whether the root of a tree without splits is shown is left open when leaves are not *)
        core(S) == IF r.leaves THEN S ELSE {c \in S : c[1] > 0}
        mean(s) == RDiv(RSumSeq([k \in 1..n |-> R(s[k])]), R(n))
        mu == mean(hs)
        var == RDiv(RSumSeq([k \in 1..n |-> RMul(RSub(R(hs[k]), mu), RSub(R(hs[k]), mu))]), R(n - 1))
    IN  IF ~ Sound(r.m) THEN {}      \* arrays that are not trees are a matter of loading
        ELSE IF r.out.st # "ok" THEN {"the topology is not reported"} ELSE
        Fails("number of leaves of each tree", r.out.num_leaves = ls)
   \cup Fails("number of nodes of each tree", r.out.num_nodes = [k \in 1..n |-> NumNodes(ts[k])])
   \cup Fails("height of each tree", r.out.heights = hs /\ r.out.theights = hs)
   \cup Fails("maximum number of leaves", r.out.max_leaves = Max(ToSet(ls)))
   \cup Fails("how many trees have a node at each position", core(got) = core(want) /\ Len(r.out.cells) = Cardinality(got)
                /\ (r.leaves => <<0, "0", n>> \in got))
   \cup Fails("fraction of the trees that have a node at each position",
              /\ Len(r.out.shape) = Len(r.out.cells)
              /\ \A c \in ToSet(r.out.shape) : \E g \in got : g[1] = c[1] /\ g[2] = c[2] /\ RClose(c[3], RDiv(R(g[3]), R(n)), "1/1000000", "0"))
   \cup Fails("fullness of the levels",
              \A d \in (IF r.leaves THEN 0 ELSE 1)..Max({p[1] : p \in core(want)} \cup {0}) :
                  LET at == {c \in want : c[1] = d} IN
                  at # {} => /\ d + 1 <= Len(r.out.full)
                             /\ RClose(r.out.full[d + 1], RDiv(RSumSeq([k \in 1..n |-> R(Cardinality({p \in per[k] : p[1] = d}))]),
                                                             R(n * Cardinality(at))), "1/1000000", "0"))
   \cup Fails("the same question has two answers", r.out.again)
   \cup Fails("statistics of the heights",
              /\ r.out.desc.nobs = n /\ r.out.desc.min = Min(ToSet(hs)) /\ r.out.desc.max = Max(ToSet(hs))
              /\ RClose(r.out.desc.mean, mu, "1/1000000000", "1")
              /\ n > 1 => RClose(r.out.desc.var, var, "1/100000000", "1"))
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
