-------------------------------- MODULE C50 --------------------------------
(* Exported drawings with what the instances given did in the tree.        *)
EXTENDS Dot, Scoring, Annotate, JudgeBase

RECURSIVE Whole(_, _)
Whole(m, n) == IF m.l[n + 1] = -1 /\ m.r[n + 1] = -1 THEN [o |-> m.v[n + 1], n |-> n]
               ELSE [f |-> m.f[n + 1], t |-> m.v[n + 1], n |-> n, l |-> Whole(m, m.l[n + 1]), r |-> Whole(m, m.r[n + 1])]
RECURSIVE Went(_, _, _)
Went(m, n, row) == IF m.l[n + 1] = -1 /\ m.r[n + 1] = -1 THEN <<>>
                   ELSE IF Goes(row[m.f[n + 1] + 1], m.v[n + 1]) THEN <<0>> \o Went(m, m.l[n + 1], row) ELSE <<1>> \o Went(m, m.r[n + 1], row)
RECURSIVE LeafNodes(_)
LeafNodes(t) == IF "o" \in DOMAIN t THEN {t.n} ELSE LeafNodes(t.l) \cup LeafNodes(t.r)
(* what is drawn: the node of the drawing, the one of the model, its place *)
RECURSIVE Drawing(_, _, _, _)
Drawing(g, id, t, p) ==
    LET x == g.nodes[CHOOSE k \in At(g, id) : TRUE]
        b == Below(g, id)
    IN  {<<x, t, p>>} \cup (IF x.kind # "split" THEN {} ELSE Drawing(g, b[1][2], t.l, Append(p, 0)) \cup Drawing(g, b[2][2], t.r, Append(p, 1)))

Verdict(r) ==
    LET m == r.m
        t == Whole(m, m.root[r.tree + 1])
        g == r.out.g
        any(x, s) == TRUE
    IN  IF ~ Sound(m) THEN {}
        ELSE IF r.out.st # "ok" THEN {"the tree cannot be exported"}
        ELSE IF Cardinality(Roots(g)) # 1 \/ ~ Draws(g, CHOOSE a \in Roots(g) : TRUE, t, r.max, any, any) THEN {"the drawing is not the tree"}
        ELSE LET D == TLCEval(Drawing(g, CHOOSE a \in Roots(g) : TRUE, t, <<>>))
                 exits == TLCEval([x \in 1..Len(r.X) |-> Went(m, m.root[r.tree + 1], r.X[x])])
                 count == TLCEval([d \in D |-> Reaching(exits, d[3])])
                 Shown == {d \in D : d[1].kind # "crop"}
                 Leaf == {d \in D : d[1].kind = "leaf"}
                 Counted == IF r.label = "all" THEN Shown ELSE Leaf
                 told == r.scored /\ r.kw.label_show
                 ends == {d[1].id : d \in {d \in D : d[1].kind # "split"}}
                 level(k) == {d[1].id : d \in {d \in D : d[1].kind = "split" /\ Len(d[3]) = k}}
                 ranks == {ToSet(r.out.ranks[k]) : k \in 1..Len(r.out.ranks)}
                 values == IF r.scored THEN {<<R(count[d]), d[1].says.colour>> : d \in Counted}
                           ELSE {<<d[2].o, d[1].says.colour>> : d \in Leaf}
                 all == IF ~ r.scored THEN {m.v[k + 1] : k \in LeafNodes(t)}
                        ELSE {R(Reaching(exits, p)) : p \in (IF r.label = "all" THEN Places(t) ELSE Ends(t))}
             IN
             Fails("identifiers of the nodes", \A d \in Shown : d[1].says.id = (IF r.kw.node_ids THEN ToString(d[2].n) ELSE ""))
        \cup Fails("counts of the instances", \A d \in Shown : d[1].says.count = (IF told /\ d \in Counted THEN count[d] ELSE -1))
        \cup Fails("percentages", \A d \in Shown : IF told /\ r.kw.proportion /\ d \in Counted THEN Share(d[1].says.share, count[d], Len(exits))
                                                  ELSE d[1].says.share = "none")
        \cup Fails("colours in the order of the values", (r.scored \/ r.kw.highlight_leaves) =>
                   (\A v \in values : v[2] >= 0) /\ Ordered(values))
        \cup Fails("values that cannot be told apart", r.scored \/ r.kw.highlight_leaves => Distinct(values, all))
        \cup Fails("ranks", IF r.kw.leaves_parallel THEN ranks = {ends} \cup ({level(k) : k \in 0..Len(m.l)} \ {{}}) ELSE ranks = {})
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
