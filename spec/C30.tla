-------------------------------- MODULE C30 --------------------------------
(* Exported drawings, parsed.  Names are compared as text, numbers up to   *)
(* the requested number of decimals.                                       *)
EXTENDS Dot, Scoring, JudgeBase

RECURSIVE TreeAt(_, _)
TreeAt(m, n) == IF m.l[n + 1] = -1 /\ m.r[n + 1] = -1 THEN [o |-> m.v[n + 1]]
                ELSE [f |-> m.f[n + 1], t |-> m.v[n + 1], l |-> TreeAt(m, m.l[n + 1]), r |-> TreeAt(m, m.r[n + 1])]

Verdict(r) ==
    LET m == r.m
        t == TreeAt(m, m.root[r.tree + 1])
        g == r.out.g
        tol(x) == RAdd(RMul("501/1000", RPow("1/10", r.precision)), RMul(RAbs(x), "1/4000000"))
        rounds(x, v) == RFin(x) /\ RLe(RAbs(RSub(x, v)), tol(v))
        split(x, s) == x.name = (IF Len(r.names) = 0 THEN r.fnames[s.f + 1] ELSE r.names[s.f + 1]) /\ rounds(x.x, s.t)
        leaf(x, s) == rounds(x.x, s.o)
        any(x, s) == TRUE
        max == r.max
    IN  IF ~ Sound(m) THEN {}
        ELSE IF r.short THEN Fails("too few feature names are accepted", r.out.st = "exc")
        ELSE IF r.out.st # "ok" THEN {"the tree cannot be exported"}
        ELSE IF Cardinality(Roots(g)) # 1 THEN {"the drawing is not a tree"}
        ELSE LET id == CHOOSE a \in Roots(g) : TRUE IN
             Fails("nodes and edges of the drawing", Draws(g, id, t, max, any, any)
                   /\ Len(g.nodes) = NumDrawn(t, max) /\ Len(g.edges) = Len(g.nodes) - 1)
        \cup Fails("labels of the nodes", Draws(g, id, t, max, any, any) => Draws(g, id, t, max, split, leaf))
        \cup Fails("the true branch of the root", r.out.true \in {"none", r.out.first})
        \cup Fails("the model changes", r.after)
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
