-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* Datasets: rows grouped by query.                                        *)
(*                                                                         *)
(* A dataset is [X |-> rows, y |-> labels, q |-> query id of every row].   *)
(* Rows of a query are contiguous (Grouped), ids come in any order.  Cells *)
(* and labels are opaque values here.                                      *)
(*                                                                         *)
(* The declarative reading of the query structure is what the id of every  *)
(* row says; View is the compact one a dataset object reports.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt


(* 1-based positions at which a new run of equal ids starts, in order       *)
Starts(q) == SetToSortSeq({k \in 1..Len(q) : k = 1 \/ q[k] # q[k - 1]}, <)

Grouped(q) == LET s == Starts(q) IN Cardinality({q[k] : k \in Range(s)}) = Len(s)

(* the compact structure of a grouped sequence of ids                      *)
View(q) ==
    LET s == Starts(q)  n == Len(s) IN
    [ids     |-> [k \in 1..n |-> q[s[k]]],
     offsets |-> [k \in 1..(n + 1) |-> IF k <= n THEN s[k] - 1 ELSE Len(q)],
     sizes   |-> [k \in 1..n |-> (IF k < n THEN s[k + 1] - 1 ELSE Len(q)) - (s[k] - 1)]]

(* the ids of every row that a compact structure stands for                *)
PerRow(v, n) == [r \in 1..n |-> v.ids[Max({k \in 1..Len(v.ids) : v.offsets[k] < r})]]

Ranges(v) == [k \in 1..Len(v.ids) |-> <<v.ids[k], v.offsets[k], v.offsets[k + 1]>>]

Queries(ds) == Range(View(ds.q).ids)
NumQueries(ds) == Len(View(ds.q).ids)

-----------------------------------------------------------------------------
(* Selecting queries and features                                          *)

KeepRows(ds, keep) ==    \* keep: ascending sequence of row numbers
    [X |-> [k \in 1..Len(keep) |-> ds.X[keep[k]]],
     y |-> [k \in 1..Len(keep) |-> ds.y[keep[k]]],
     q |-> [k \in 1..Len(keep) |-> ds.q[keep[k]]]]

Subset(ds, Q) == KeepRows(ds, SetToSortSeq({r \in 1..Len(ds.q) : ds.q[r] \in Q}, <))

(* fs: sequence of 0-based column numbers                                  *)
SubsetFeatures(ds, fs) ==
    [ds EXCEPT !.X = [r \in 1..Len(ds.X) |-> [c \in 1..Len(fs) |-> ds.X[r][fs[c] + 1]]]]

SetCell(ds, r, c, v) == [ds EXCEPT !.X[r][c] = v]

(* Parts (datasets) partition ds by queries: every query is in one part,   *)
(* which holds exactly its rows in their order.                            *)
PartitionedInto(ds, parts) ==
    /\ \A k \in 1..Len(parts) : parts[k] = Subset(ds, Range(parts[k].q))
    /\ \A a, b \in 1..Len(parts) : a # b => Range(parts[a].q) \cap Range(parts[b].q) = {}
    /\ UNION {Range(parts[k].q) : k \in 1..Len(parts)} = Range(ds.q)

-----------------------------------------------------------------------------
(* Splitting.  A permutation of the queries is cut in consecutive pieces.  *)
(* Ratios are fractions num/den; halves are rounded to even.               *)
RoundHalfEven(num, den) ==
    LET f == num \div den  r == num % den IN
    IF 2 * r < den THEN f ELSE IF 2 * r > den THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1

SplitSizes(n, tr, va, den) ==
    LET a == RoundHalfEven(tr * n, den)
        w == RoundHalfEven(va * n, den)
        b == IF w <= n - a THEN w ELSE n - a
    IN  <<a, b, n - a - b>>

(* K folds: fold k (0-based) of n queries holds the positions              *)
(* [k * f, (k+1) * f), the last one taking the remainder.                  *)
FoldPositions(n, folds, k) ==
    LET f == n \div folds IN
    {p \in 0..(n - 1) : k * f <= p /\ (k = folds - 1 \/ p < (k + 1) * f)}

(* roles rotate: test is the fold before, validation the one before that   *)
Roles(n, folds, cur) ==
    LET test == FoldPositions(n, folds, (cur - 1) % folds)
        vali == FoldPositions(n, folds, (cur - 2) % folds)
    IN  [test |-> test, vali |-> vali, train |-> (0..(n - 1)) \ (test \cup vali)]

(* the same, computed on a circle of positions starting at split points    *)
CircleRange(n, from, to) == {(p % n) : p \in from..((IF to < from THEN to + n ELSE to) - 1)}
CircleRoles(n, folds, cur) ==
    LET f == n \div folds
        tr == f * cur
        va == f * ((cur - 2) % folds)
        te == f * ((cur - 1) % folds)
    IN  [train |-> CircleRange(n, tr, va), vali |-> CircleRange(n, va, te), test |-> CircleRange(n, te, tr)]
=============================================================================
