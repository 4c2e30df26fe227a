--------------------------------- MODULE Dot ---------------------------------
(***************************************************************************)
(* A drawing of a tree as a graph: nodes is a sequence of                  *)
(* [id, kind, ...] with kind "split", "leaf" or "crop", edges a sequence   *)
(* of <<parent id, child id>>, both in the order they are drawn.           *)
(***************************************************************************)
EXTENDS Forest

At(g, id) == {k \in 1..Len(g.nodes) : g.nodes[k].id = id}
Below(g, id) == SelectSeq(g.edges, LAMBDA e : e[1] = id)

(* graph g drawn from node id shows tree t, which starts at depth d, down  *)
(* to depth max (no limit if max < 0)                                      *)
Draws(g, id, tree, max, SameSplit(_, _), SameLeaf(_, _)) ==
    LET RECURSIVE go(_, _, _)
        go(n, t, d) ==
            /\ Cardinality(At(g, n)) = 1
            /\ LET x == g.nodes[CHOOSE k \in At(g, n) : TRUE]
                   b == Below(g, n)
               IN IF max >= 0 /\ d > max THEN x.kind = "crop" /\ b = <<>>
                  ELSE IF IsLeaf(t) THEN x.kind = "leaf" /\ SameLeaf(x, t) /\ b = <<>>
                  ELSE /\ x.kind = "split" /\ SameSplit(x, t) /\ Len(b) = 2 /\ b[1][2] # b[2][2]
                       /\ go(b[1][2], t.l, d + 1) /\ go(b[2][2], t.r, d + 1)
    IN  go(id, tree, 0)

(* number of nodes drawn                                                   *)
RECURSIVE Drawn(_, _)
Drawn(t, left) ==    \* left: how many further levels are shown; -1 once cropped
    IF left < 0 \/ IsLeaf(t) THEN 1 ELSE 1 + Drawn(t.l, left - 1) + Drawn(t.r, left - 1)
NumDrawn(t, max) == Drawn(t, IF max < 0 THEN Height(t) + 1 ELSE max)

Roots(g) == {g.nodes[k].id : k \in 1..Len(g.nodes)} \ {g.edges[k][2] : k \in 1..Len(g.edges)}
=============================================================================
