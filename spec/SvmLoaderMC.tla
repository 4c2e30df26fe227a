----------------------------- MODULE SvmLoaderMC -----------------------------
(* Every file of at most MaxRows lines over features 1..MaxF: the buffer   *)
(* of the incremental loader always is the matrix of the lines read, and   *)
(* what the writer writes for that matrix reads back as the same matrix.   *)
EXTENDS SvmFile, TLC
CONSTANTS MaxRows, MaxF
VARIABLES lines, ld

Sorted(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a < b => s[a] < s[b]
LineOf(S, r) == [lab |-> r, q |-> "1",
                 f |-> LET s == Sorted(S) IN [k \in 1..Cardinality(S) |-> <<s[k], 10 * r + s[k]>>]]

Init == lines = <<>> /\ ld = EmptyLoader
ReadLine(S) == LET l == LineOf(S, Len(lines) + 1)
               IN lines' = Append(lines, l) /\ ld' = AddLine(ld, l, 0)
Next == Len(lines) < MaxRows /\ \E S \in SUBSET (1..MaxF) : ReadLine(S)

Refines   == AsMatrix(ld) = Matrix(lines, 0)
RoundTrip == Len(lines) > 0 /\ ld.width > 0 =>
    LET w == Written(Matrix(lines, 0), Labels(lines), Qids(lines), 1)
    IN  Matrix(w, 0) = Matrix(lines, 0) /\ Labels(w) = Labels(lines) /\ Qids(w) = Qids(lines)
NoLoss    == \A r \in 1..Len(lines) : \A k \in 1..Len(lines[r].f) :
                AsMatrix(ld)[r][lines[r].f[k][1]] = lines[r].f[k][2]
=============================================================================
