------------------------------- MODULE Formats -------------------------------
(***************************************************************************)
(* The model file formats: what a file says (a stream of tokens written    *)
(* for a forest) and an incremental reader for each of them.  A reader is  *)
(* a state machine that consumes one token at a time and fills a flat form *)
(* whose size was counted beforehand.                                      *)
(***************************************************************************)
EXTENDS Forest

Blank(nt, nn) == [root |-> [k \in 1..nt |-> -1], w |-> [k \in 1..nt |-> "0"], l |-> [k \in 1..nn |-> -1],
                  r |-> [k \in 1..nn |-> -1], v |-> [k \in 1..nn |-> "-1"], f |-> [k \in 1..nn |-> -1]]

-----------------------------------------------------------------------------
(* QuickRank: XML events.  Split elements nest; features and thresholds    *)
(* come before the children.                                               *)
RECURSIVE QrNode(_, _)
QrNode(t, pos) ==
    << [e |-> "split", pos |-> pos] >> \o
    (IF IsLeaf(t) THEN << [e |-> "output", x |-> t.o] >>
     ELSE << [e |-> "feature", x |-> t.f + 1], [e |-> "threshold", x |-> t.t] >> \o QrNode(t.l, "left") \o QrNode(t.r, "right"))
    \o << [e |-> "/split"] >>

RECURSIVE QrStream(_)
QrStream(fr) == IF fr = <<>> THEN <<>>
                ELSE QrStream(SubSeq(fr, 1, Len(fr) - 1)) \o << [e |-> "tree", w |-> fr[Len(fr)].w] >> \o QrNode(fr[Len(fr)].root, "")

QrStart(fr) == [m |-> Blank(Len(fr), SumNodes(fr)), tree |-> 0, node |-> -1, stack |-> <<>>]

QrStep(p, x) ==
    CASE x.e = "tree"  -> [p EXCEPT !.tree = @ + 1, !.node = @ + 1, !.m.root[p.tree + 1] = p.node + 1, !.m.w[p.tree + 1] = x.w]
      [] x.e = "split" /\ x.pos = "" -> [p EXCEPT !.stack = Append(@, p.node)]
      [] x.e = "split" /\ x.pos = "left"  -> [p EXCEPT !.node = @ + 1, !.m.l[p.stack[Len(p.stack)] + 1] = p.node + 1, !.stack = Append(@, p.node + 1)]
      [] x.e = "split" /\ x.pos = "right" -> [p EXCEPT !.node = @ + 1, !.m.r[p.stack[Len(p.stack)] + 1] = p.node + 1, !.stack = Append(@, p.node + 1)]
      [] x.e = "/split" -> [p EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
      [] x.e = "feature" -> [p EXCEPT !.m.f[p.node + 1] = x.x - 1]
      [] x.e \in {"threshold", "output"} -> [p EXCEPT !.m.v[p.node + 1] = x.x]

-----------------------------------------------------------------------------
(* XGBoost and scikit-learn text: one node per line in preorder.  A queue  *)
(* holds the child positions still to be filled, the next one last.        *)
RECURSIVE TxStream(_)
TxNode(t) == IF IsLeaf(t) THEN [e |-> "leaf", x |-> t.o] ELSE [e |-> "node", f |-> t.f, x |-> t.t]
TxStream(fr) == IF fr = <<>> THEN <<>>
                ELSE LET t == fr[Len(fr)].root  p == Preorder(t) IN
                     TxStream(SubSeq(fr, 1, Len(fr) - 1)) \o << [e |-> "booster"] >> \o [k \in 1..Len(p) |-> TxNode(p[k])]

TxStart(fr) == [m |-> Blank(Len(fr), SumNodes(fr)), tree |-> 0, base |-> 0, count |-> 0, queue |-> <<>>]

TxStep(p, x) ==
    IF x.e = "booster"
    THEN [p EXCEPT !.tree = @ + 1, !.base = p.base + p.count, !.count = 0, !.m.root[p.tree + 1] = p.base + p.count, !.m.w[p.tree + 1] = "1"]
    ELSE LET id == p.base + p.count
             filled == [p EXCEPT !.count = @ + 1, !.m.v[id + 1] = x.x, !.m.f[id + 1] = IF x.e = "node" THEN x.f ELSE -1]
             top == p.queue[Len(p.queue)]
             linked == IF p.queue = <<>> THEN filled
                       ELSE IF top[2] = "L" THEN [filled EXCEPT !.m.l[top[1] + 1] = id, !.queue = SubSeq(@, 1, Len(@) - 1)]
                            ELSE [filled EXCEPT !.m.r[top[1] + 1] = id, !.queue = SubSeq(@, 1, Len(@) - 1)]
         IN IF x.e = "node" THEN [linked EXCEPT !.queue = @ \o << <<id, "R">>, <<id, "L">> >>] ELSE linked

-----------------------------------------------------------------------------
(* LightGBM and Jforests: per tree, arrays over its splits (the root is    *)
(* split 0) and its leaves; child c >= 0 is split c, c < 0 is leaf -c.     *)
RECURSIVE ArrTree(_, _)
ArrTree(a, c) ==
    IF c < 0 THEN [o |-> a.leaves[-c]]
    ELSE [f |-> a.features[c + 1], t |-> a.thresholds[c + 1], l |-> ArrTree(a, a.left[c + 1]), r |-> ArrTree(a, a.right[c + 1])]
WrittenTree(a) == IF Len(a.features) = 0 THEN [o |-> a.leaves[1]] ELSE ArrTree(a, 0)

ArSize(a) == Len(a.features) + Len(a.leaves)
ArStart(as) == [m |-> Blank(Len(as), FoldSeq(LAMBDA a, acc : acc + ArSize(a), 0, as)), tree |-> 0, base |-> 0]
ArStep(p, a, w) ==
    LET ns == Len(a.features)
        link(c) == IF c >= 0 THEN p.base + c ELSE p.base + ns + (-c) - 1
        in(k) == k > p.base /\ k <= p.base + ArSize(a)
        n == Len(p.m.l)
    IN [m |-> [root |-> [p.m.root EXCEPT ![p.tree + 1] = p.base], w |-> [p.m.w EXCEPT ![p.tree + 1] = w],
               l |-> [k \in 1..n |-> IF in(k) /\ k - p.base <= ns THEN link(a.left[k - p.base]) ELSE p.m.l[k]],
               r |-> [k \in 1..n |-> IF in(k) /\ k - p.base <= ns THEN link(a.right[k - p.base]) ELSE p.m.r[k]],
               v |-> [k \in 1..n |-> IF ~ in(k) THEN p.m.v[k] ELSE IF k - p.base <= ns THEN a.thresholds[k - p.base] ELSE a.leaves[k - p.base - ns]],
               f |-> [k \in 1..n |-> IF in(k) /\ k - p.base <= ns THEN a.features[k - p.base] ELSE p.m.f[k]]],
        tree |-> p.tree + 1, base |-> p.base + ArSize(a)]

-----------------------------------------------------------------------------
(* CatBoost as CoreML: nodes with a tree and a node number; the root of a  *)
(* tree has the highest number; "gt" nodes send larger values to yes, "le" *)
(* nodes values up to the threshold.                                       *)
RECURSIVE MlTree(_, _)
MlTree(ns, k) ==
    LET n == ns[k + 1] IN
    IF n.kind = "leaf" THEN [o |-> n.o]
    ELSE IF n.kind = "gt" THEN [f |-> n.f, t |-> n.t, l |-> MlTree(ns, n.no), r |-> MlTree(ns, n.yes)]
    ELSE [f |-> n.f, t |-> n.t, l |-> MlTree(ns, n.yes), r |-> MlTree(ns, n.no)]
MlRoot(ns) == MlTree(ns, Len(ns) - 1)

RECURSIVE MlOffset(_, _)
MlOffset(sizes, k) == IF k = 1 THEN 0 ELSE MlOffset(sizes, k - 1) + sizes[k - 1]
MlStart(sizes) == [m |-> Blank(Len(sizes), MlOffset(sizes, Len(sizes)) + sizes[Len(sizes)])]
(* consume node number k of tree t                                         *)
MlStep(p, sizes, t, k, n) ==
    LET off == MlOffset(sizes, t)
        at(j) == off + sizes[t] - 1 - j
        id == at(k) + 1
        q == [p EXCEPT !.m.v[id] = IF n.kind = "leaf" THEN n.o ELSE n.t]
        s == IF n.kind = "leaf" THEN q
             ELSE [q EXCEPT !.m.f[id] = n.f, !.m.l[id] = at(IF n.kind = "gt" THEN n.no ELSE n.yes),
                            !.m.r[id] = at(IF n.kind = "gt" THEN n.yes ELSE n.no)]
    IN IF k = sizes[t] - 1 THEN [s EXCEPT !.m.root[t] = off, !.m.w[t] = "1"] ELSE s
=============================================================================
