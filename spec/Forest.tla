------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* Ensembles of binary regression trees.                                   *)
(*                                                                         *)
(* A tree is a leaf [o |-> output] or a split                              *)
(* [f |-> feature, t |-> threshold, l |-> tree, r |-> tree]; features are  *)
(* counted from 0.  A forest is a sequence of [w |-> weight, root |-> tree].*)
(*                                                                         *)
(* The flat form of a forest is what a loaded model keeps:                 *)
(*   m.root[k]  node number of the root of tree k                          *)
(*   m.w[k]     its weight                                                 *)
(*   m.l, m.r   left and right child of every node, -1 for leaves          *)
(*   m.v, m.f   threshold (or output of a leaf) and feature of every node  *)
(* Node numbers count from 0; the nodes of tree k are those from root[k]   *)
(* to just before root[k + 1].                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

IsLeaf(t) == "o" \in DOMAIN t

RECURSIVE NumNodes(_), NumLeaves(_), Height(_), FeaturesOf(_), Preorder(_)
NumNodes(t)  == IF IsLeaf(t) THEN 1 ELSE 1 + NumNodes(t.l) + NumNodes(t.r)
NumLeaves(t) == IF IsLeaf(t) THEN 1 ELSE NumLeaves(t.l) + NumLeaves(t.r)
Height(t)    == IF IsLeaf(t) THEN 0
                ELSE LET a == Height(t.l)  b == Height(t.r) IN 1 + (IF a >= b THEN a ELSE b)
FeaturesOf(t) == IF IsLeaf(t) THEN {} ELSE {t.f} \cup FeaturesOf(t.l) \cup FeaturesOf(t.r)
Preorder(t)  == IF IsLeaf(t) THEN <<t>> ELSE <<t>> \o Preorder(t.l) \o Preorder(t.r)

SumNodes(fr) == FoldSeq(LAMBDA t, acc : acc + NumNodes(t.root), 0, fr)

(* the leaf that a row reaches; Left(x, t) decides a split                 *)
Route(tree, row, Left(_, _)) ==
    LET RECURSIVE go(_)
        go(t) == IF IsLeaf(t) THEN t ELSE IF Left(row[t.f + 1], t.t) THEN go(t.l) ELSE go(t.r)
    IN  go(tree)

Prefix(fr, n) == IF n >= Len(fr) THEN fr ELSE SubSeq(fr, 1, n)

-----------------------------------------------------------------------------
(* Flat forms                                                              *)

(* nodes k.. of the flat form m represent tree t; thresholds and outputs   *)
(* are compared by SameT and SameO                                         *)
RepresentsAt(m, node, tree, SameT(_, _), SameO(_, _)) ==
    LET RECURSIVE go(_, _)
        go(k, t) ==
            /\ k >= 0 /\ k < Len(m.l)
            /\ IF IsLeaf(t)
               THEN m.l[k + 1] = -1 /\ m.r[k + 1] = -1 /\ SameO(m.v[k + 1], t.o)
               ELSE /\ m.f[k + 1] = t.f
                    /\ SameT(m.v[k + 1], t.t)
                    /\ go(m.l[k + 1], t.l)
                    /\ go(m.r[k + 1], t.r)
    IN  go(node, tree)

Bound(m, k) == IF k = Len(m.root) THEN Len(m.l) ELSE m.root[k + 1]

(* all nodes of tree k below node a are inside its range and never go back *)
Contiguous(m) ==
    /\ Len(m.root) > 0 => m.root[1] = 0
    /\ \A k \in 1..Len(m.root) :
        /\ m.root[k] < Bound(m, k)
        /\ \A a \in m.root[k]..(Bound(m, k) - 1) :
             \A c \in {m.l[a + 1], m.r[a + 1]} : c = -1 \/ (m.root[k] <= c /\ c < Bound(m, k))

(* the arrays hold trees: from every root, every path ends in a leaf       *)
Sound(m) ==
    /\ Len(m.r) = Len(m.l) /\ Len(m.v) = Len(m.l) /\ Len(m.f) = Len(m.l)
    /\ LET RECURSIVE ok(_, _)
           ok(k, fuel) == /\ fuel > 0 /\ 0 <= k /\ k < Len(m.l)
                          /\ \/ m.l[k + 1] = -1 /\ m.r[k + 1] = -1
                             \/ ok(m.l[k + 1], fuel - 1) /\ ok(m.r[k + 1], fuel - 1)
       IN \A k \in 1..Len(m.root) : ok(m.root[k], Len(m.l) + 1)

SameLengths(m) == /\ Len(m.r) = Len(m.l) /\ Len(m.v) = Len(m.l) /\ Len(m.f) = Len(m.l)
                  /\ Len(m.w) = Len(m.root)

RepresentsForest(m, fr, SameT(_, _), SameO(_, _)) ==
    /\ SameLengths(m) /\ Len(m.root) = Len(fr)
    /\ \A k \in 1..Len(fr) : RepresentsAt(m, m.root[k], fr[k].root, SameT, SameO)

(* the leaf node that a row reaches in the flat form (at most Len steps)   *)
RouteFlat(m, node, row, Left(_, _)) ==
    LET RECURSIVE go(_, _)
        go(k, fuel) ==
            IF fuel = 0 \/ k < 0 \/ k >= Len(m.l) THEN -2
            ELSE IF m.l[k + 1] = -1 /\ m.r[k + 1] = -1 THEN k
            ELSE IF m.f[k + 1] < 0 \/ m.f[k + 1] >= Len(row) THEN -2
            ELSE go(IF Left(row[m.f[k + 1] + 1], m.v[k + 1]) THEN m.l[k + 1] ELSE m.r[k + 1], fuel - 1)
    IN  go(node, Len(m.l) + 1)

EmptyFlat == [root |-> <<>>, w |-> <<>>, l |-> <<>>, r |-> <<>>, v |-> <<>>, f |-> <<>>]

(* the flat form of a forest in preorder                                   *)
RECURSIVE FlatTree(_, _)
FlatTree(t, at) ==     \* sequence of <<l, r, v, f>>
    IF IsLeaf(t) THEN << <<-1, -1, t.o, -1>> >>
    ELSE LET n == NumNodes(t.l) IN
         << <<at + 1, at + 1 + n, t.t, t.f>> >> \o FlatTree(t.l, at + 1) \o FlatTree(t.r, at + 1 + n)

RECURSIVE Flat(_)
Flat(fr) ==
    IF fr = <<>> THEN EmptyFlat
    ELSE LET n == Len(fr)
             m == Flat(SubSeq(fr, 1, n - 1))
             x == FlatTree(fr[n].root, Len(m.l))
             col(c) == [k \in 1..Len(x) |-> x[k][c]]
         IN [root |-> Append(m.root, Len(m.l)), w |-> Append(m.w, fr[n].w),
             l |-> m.l \o col(1), r |-> m.r \o col(2), v |-> m.v \o col(3), f |-> m.f \o col(4)]

(* truncation of a flat form to its first n trees                          *)
Truncate(m, n) ==
    IF n >= Len(m.root) THEN m
    ELSE LET k == m.root[n + 1] IN
         [root |-> SubSeq(m.root, 1, n), w |-> SubSeq(m.w, 1, n), l |-> SubSeq(m.l, 1, k), r |-> SubSeq(m.r, 1, k),
          v |-> SubSeq(m.v, 1, k), f |-> SubSeq(m.f, 1, k)]

-----------------------------------------------------------------------------
(* Topology                                                                *)
RECURSIVE Positions(_, _, _)
Positions(t, row, col) ==    \* set of <<depth, column>> of the nodes of t
    IF IsLeaf(t) THEN {<<row, col>>}
    ELSE {<<row, col>>} \cup Positions(t.l, row + 1, 2 * col) \cup Positions(t.r, row + 1, 2 * col + 1)
=============================================================================
