------------------------------- MODULE DataMC -------------------------------
(* Exhaustive exploration of derived datasets: a root dataset with every   *)
(* layout of query sizes, from which subsets, feature subsets, splits and  *)
(* folds are taken, repeatedly; `cur` is the current dataset and `alive`   *)
(* the root rows it must consist of.                                       *)
EXTENDS Data, TLC
CONSTANTS MaxQ, MaxSize, NF, MaxDepth
VARIABLES root, cur, qs, cols, depth

Flat(s) == FoldSeq(LAMBDA x, acc : acc \o x, <<>>, s)
Perms(S) == {p \in [1..Cardinality(S) -> S] : Cardinality(Range(p)) = Cardinality(S)}

RootOf(ids, sz) ==
    LET q == Flat([k \in 1..Len(ids) |-> [j \in 1..sz[k] |-> ids[k]]]) IN
    [X |-> [r \in 1..Len(q) |-> [c \in 1..NF |-> 10 * r + c]], y |-> [r \in 1..Len(q) |-> r], q |-> q]

Init ==
    \E n \in 1..MaxQ : \E ids \in Perms(1..n) : \E sz \in [1..n -> 1..MaxSize] :
        /\ root = RootOf(ids, sz) /\ cur = root
        /\ qs = 1..n /\ cols = [c \in 1..NF |-> c] /\ depth = 0

TakeQueries == \E Q \in SUBSET (1..(MaxQ + 1)) :
    /\ qs \cap Q # {}
    /\ cur' = Subset(cur, Q) /\ qs' = qs \cap Q /\ UNCHANGED cols

TakeFeatures == \E n \in 1..2 : \E fs \in [1..n -> 0..(Len(cols) - 1)] :
    /\ cur' = SubsetFeatures(cur, fs) /\ cols' = [c \in 1..n |-> cols[fs[c] + 1]] /\ UNCHANGED qs

(* any permutation of the queries is cut; continue with any part           *)
TakeSplit == \E p \in Perms(qs) : \E tr \in 0..4 : \E va \in 0..(4 - tr) : \E part \in 1..3 :
    LET n == Cardinality(qs)
        s == SplitSizes(n, tr, va, 4)
        from == IF part = 1 THEN 0 ELSE IF part = 2 THEN s[1] ELSE s[1] + s[2]
        Q == {p[k] : k \in (from + 1)..(from + s[part])}
    IN  Q # {} /\ cur' = Subset(cur, Q) /\ qs' = Q /\ UNCHANGED cols

Next == depth < MaxDepth /\ depth' = depth + 1 /\ UNCHANGED root /\ (TakeQueries \/ TakeFeatures \/ TakeSplit)

-----------------------------------------------------------------------------
StructureOK ==
    LET v == View(cur.q) IN
    /\ Grouped(cur.q)
    /\ PerRow(v, Len(cur.q)) = cur.q
    /\ Range(v.ids) = qs
    /\ v.offsets[1] = 0 /\ v.offsets[Len(v.offsets)] = Len(cur.q)
    /\ \A k \in 1..Len(v.ids) : v.sizes[k] > 0 /\ v.offsets[k] + v.sizes[k] = v.offsets[k + 1]

(* the current dataset is the root restricted to its queries and columns   *)
RowsOK ==
    LET keep == SetToSortSeq({r \in 1..Len(root.q) : root.q[r] \in qs}, <) IN
    /\ cur.y = keep
    /\ cur.X = [k \in 1..Len(keep) |-> [c \in 1..Len(cols) |-> 10 * keep[k] + cols[c]]]

SplitOK == LET n == Cardinality(qs) IN
    \A tr \in 0..4 : \A va \in 0..(4 - tr) :
        LET s == SplitSizes(n, tr, va, 4) IN
        /\ s[1] + s[2] + s[3] = n /\ s[1] >= 0 /\ s[2] >= 0 /\ s[3] >= 0
        /\ 2 * (4 * s[1] - tr * n) \in -4..4 /\ 2 * (4 * s[2] - va * n) \in -4..4
=============================================================================
