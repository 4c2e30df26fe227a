------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* Exporting a boosted ensemble of scikit-learn.  A fitted tree is a set   *)
(* of arrays over its nodes, node 0 the root, in whatever order they were  *)
(* grown: children l, r (-1 for a leaf), feature f, threshold t, value v.  *)
(* The exporter writes one line per node, a node before its left and its   *)
(* right subtree, each line with the number of its node; the reader puts   *)
(* every node at its number and links it to the position it completes.     *)
(***************************************************************************)
EXTENDS Formats

RECURSIVE SkTreeAt(_, _)
SkTreeAt(a, k) ==
    IF a.l[k + 1] = -1 THEN [o |-> a.v[k + 1]]
    ELSE [f |-> a.f[k + 1], t |-> a.t[k + 1], l |-> SkTreeAt(a, a.l[k + 1]), r |-> SkTreeAt(a, a.r[k + 1])]
SkTree(a) == SkTreeAt(a, 0)

(* writer: the nodes still to be written, the next one last                *)
WrStart == [stack |-> <<0>>, lines |-> <<>>]
WrStep(w, a) ==
    LET k == w.stack[Len(w.stack)]
        rest == SubSeq(w.stack, 1, Len(w.stack) - 1)
    IN IF a.l[k + 1] = -1
       THEN [stack |-> rest, lines |-> Append(w.lines, [e |-> "leaf", id |-> k, x |-> a.v[k + 1]])]
       ELSE [stack |-> rest \o <<a.r[k + 1], a.l[k + 1]>>, lines |-> Append(w.lines, [e |-> "node", id |-> k, f |-> a.f[k + 1], x |-> a.t[k + 1]])]

(* reader of numbered lines                                                *)
RdStart(n) == [m |-> [Blank(1, n) EXCEPT !.root = <<0>>, !.w = <<"1">>], queue |-> <<>>]
RdStep(p, x) ==
    LET filled == [p EXCEPT !.m.v[x.id + 1] = x.x, !.m.f[x.id + 1] = IF x.e = "node" THEN x.f ELSE -1]
        top == p.queue[Len(p.queue)]
        linked == IF p.queue = <<>> THEN filled
                  ELSE IF top[2] = "L" THEN [filled EXCEPT !.m.l[top[1] + 1] = x.id, !.queue = SubSeq(@, 1, Len(@) - 1)]
                       ELSE [filled EXCEPT !.m.r[top[1] + 1] = x.id, !.queue = SubSeq(@, 1, Len(@) - 1)]
    IN IF x.e = "node" THEN [linked EXCEPT !.queue = @ \o << <<x.id, "R">>, <<x.id, "L">> >>] ELSE linked
=============================================================================
