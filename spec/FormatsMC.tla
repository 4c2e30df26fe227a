----------------------------- MODULE FormatsMC -----------------------------
(* Every forest of up to MaxTrees trees with up to MaxSplits splits each,  *)
(* written in every format and read back token by token: the reader ends   *)
(* with a flat form of exactly that forest, whose truncations are the flat *)
(* forms of its prefixes and which routes every row like the forest.       *)
EXTENDS Formats, TLC
CONSTANTS MaxTrees, MaxSplits
VARIABLES fr, fmt, numbering, pos, p

(* shapes: "." or <<left, right>> *)
RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {[o |-> "."]}
             ELSE UNION {{[l |-> a, r |-> b] : a \in Shapes(i), b \in Shapes(n - 1 - i)} : i \in 0..(n - 1)}
AllShapes == UNION {Shapes(n) : n \in 0..MaxSplits}

(* distinct labels by position; feature numbers alternate                  *)
RECURSIVE Label(_, _)
Label(s, name) == IF "o" \in DOMAIN s THEN [o |-> "o" \o name]
                  ELSE [f |-> Len(name) % 2, t |-> 2 * Len(name) - 3, l |-> Label(s.l, name \o "l"), r |-> Label(s.r, name \o "r")]

Forests == UNION {{[k \in 1..n |-> [w |-> "w" \o ToString(k), root |-> Label(s[k], ToString(k))]] : s \in [1..n -> AllShapes]} : n \in 1..MaxTrees}

(* array form with splits in preorder or reverse order (root first), and leaves too *)
Nodes(t) == Preorder(t)
SplitsOf(t, rev) == LET s == SelectSeq(Nodes(t), LAMBDA x : ~ IsLeaf(x)) IN
                    IF rev /\ Len(s) > 1 THEN <<s[1]>> \o Reverse(SubSeq(s, 2, Len(s))) ELSE s
LeavesOf(t, rev) == LET s == SelectSeq(Nodes(t), IsLeaf) IN IF rev THEN Reverse(s) ELSE s
Written(t, rev) ==
    LET s == SplitsOf(t, rev)  lv == LeavesOf(t, rev)
        num(x) == IF IsLeaf(x) THEN -(CHOOSE k \in 1..Len(lv) : lv[k] = x) ELSE (CHOOSE k \in 1..Len(s) : s[k] = x) - 1
    IN [features |-> [k \in 1..Len(s) |-> s[k].f], thresholds |-> [k \in 1..Len(s) |-> s[k].t],
        left |-> [k \in 1..Len(s) |-> num(s[k].l)], right |-> [k \in 1..Len(s) |-> num(s[k].r)], leaves |-> [k \in 1..Len(lv) |-> lv[k].o]]
MlWritten(t, rev) ==
    LET lv == LeavesOf(t, rev)  s == Reverse(SplitsOf(t, rev))  all == lv \o s
        num(x) == (CHOOSE k \in 1..Len(all) : all[k] = x) - 1
    IN [k \in 1..Len(all) |-> IF IsLeaf(all[k]) THEN [kind |-> "leaf", o |-> all[k].o]
                              ELSE IF (k % 2 = 0) = rev THEN [kind |-> "gt", f |-> all[k].f, t |-> all[k].t, yes |-> num(all[k].r), no |-> num(all[k].l)]
                              ELSE [kind |-> "le", f |-> all[k].f, t |-> all[k].t, yes |-> num(all[k].l), no |-> num(all[k].r)]]

MlSizes == [k \in 1..Len(fr) |-> NumNodes(fr[k].root)]
MlStream == FoldSeq(LAMBDA k, acc : acc \o [j \in 1..MlSizes[k] |-> [t |-> k, k |-> j - 1, n |-> MlWritten(fr[k].root, numbering)[j]]], <<>>,
                    [k \in 1..Len(fr) |-> k])

Stream == CASE fmt = "quickrank" -> QrStream(fr)
            [] fmt = "text" -> TxStream(fr)
            [] fmt = "arrays" -> [k \in 1..Len(fr) |-> Written(fr[k].root, numbering)]
            [] fmt = "coreml" -> MlStream
Init == /\ fr \in Forests /\ fmt \in {"quickrank", "text", "arrays", "coreml"} /\ numbering \in BOOLEAN /\ pos = 1
        /\ (fmt \in {"quickrank", "text"} => numbering = FALSE)
        /\ p = CASE fmt = "quickrank" -> QrStart(fr)
                 [] fmt = "text" -> TxStart(fr)
                 [] fmt = "arrays" -> ArStart([k \in 1..Len(fr) |-> Written(fr[k].root, numbering)])
                 [] fmt = "coreml" -> MlStart(MlSizes)
Next == /\ pos <= Len(Stream)
        /\ pos' = pos + 1
        /\ p' = LET x == Stream[pos] IN
                CASE fmt = "quickrank" -> QrStep(p, x)
                  [] fmt = "text" -> TxStep(p, x)
                  [] fmt = "arrays" -> ArStep(p, x, fr[pos].w)
                  [] fmt = "coreml" -> MlStep(p, MlSizes, x.t, x.k, x.n)
        /\ UNCHANGED <<fr, fmt, numbering>>

Done == pos > Len(Stream)
Eq(a, b) == a = b
Le(x, t) == x <= t
Grid == [1..2 -> {-4, -1, 0, 1, 3, 6}]

Read == Done => RepresentsForest(p.m, fr, Eq, Eq) /\ Contiguous(p.m)
Weights == Done => p.m.w = [k \in 1..Len(fr) |-> IF fmt \in {"text", "coreml"} THEN "1" ELSE fr[k].w]
SameAsFlat == Done /\ fmt = "quickrank" => p.m = Flat(fr)
Truncations == Done => \A n \in 1..(Len(fr) + 1) :
    RepresentsForest(Truncate(p.m, n), Prefix(fr, n), Eq, Eq) /\ Contiguous(Truncate(p.m, n))
Routing == Done => \A row \in Grid : \A k \in 1..Len(fr) :
    LET leaf == RouteFlat(p.m, p.m.root[k], row, Le) IN
    leaf >= 0 /\ p.m.v[leaf + 1] = Route(fr[k].root, row, Le).o
=============================================================================
