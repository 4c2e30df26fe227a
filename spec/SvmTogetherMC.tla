---------------------------- MODULE SvmTogetherMC ----------------------------
(* Files are loaded one after the other and widened at the end: every      *)
(* matrix has the common width, and is its own file's matrix followed by   *)
(* columns of zeros.                                                       *)
EXTENDS SvmFile, TLC
CONSTANTS MaxFiles, MaxRows, MaxF
VARIABLES files, loaded

Sorted(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a < b => s[a] < s[b]
LineOf(S, r) == [lab |-> r, q |-> "1", f |-> LET s == Sorted(S) IN [k \in 1..Cardinality(S) |-> <<s[k], 10 * r + s[k]>>]]
Lines(n) == {[r \in 1..n |-> LineOf(c[r], r)] : c \in [1..n -> SUBSET (1..MaxF)]}

Init == files = <<>> /\ loaded = <<>>
Load(f) == files' = Append(files, f) /\ loaded' = Append(loaded, Matrix(f, 0))
Next == Len(files) < MaxFiles /\ \E n \in 1..MaxRows : \E f \in Lines(n) : Load(f)

Common == LET S == {Len(loaded[k][1]) : k \in 1..Len(loaded)} IN CHOOSE m \in S : \A x \in S : x <= m
Padded == [k \in 1..Len(loaded) |-> [r \in 1..Len(loaded[k]) |->
             loaded[k][r] \o [c \in 1..(Common - Len(loaded[k][r])) |-> 0]]]

PaddingIsTogether == files # <<>> => Padded = Together(files, 0)
OwnRows == \A k \in 1..Len(files) : \A r \in 1..Len(files[k]) :
              /\ SubSeq(Together(files, 0)[k][r], 1, Width(files[k])) = Matrix(files[k], 0)[r]
              /\ \A j \in 1..Len(files) : Len(Together(files, 0)[j][1]) = Len(Together(files, 0)[k][r])
=============================================================================
