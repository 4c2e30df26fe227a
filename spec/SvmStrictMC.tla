----------------------------- MODULE SvmStrictMC -----------------------------
(* Every file of at most MaxRows lines whose feature numbers are any       *)
(* sequence of at most MaxTok numbers from 0..MaxF, with or without query  *)
(* ids: what the strict reader accepts is a faithful reading of the lines  *)
(* it has seen, it accepts every well-formed file, numbered from one or    *)
(* from zero, and what it refuses is not well formed.                      *)
EXTENDS SvmFile, TLC
CONSTANTS MaxRows, MaxTok, MaxF
VARIABLES lines, rd

Toks == UNION {[1..n -> 0..MaxF] : n \in 0..MaxTok}
LineOf(t, q, r) == [lab |-> r, q |-> q, f |-> [k \in 1..Len(t) |-> <<t[k], 10 * r + k>>]]

Init == lines = <<>> /\ rd = EmptyReader
ReadLine(t, q) == LET x == LineOf(t, q, Len(lines) + 1)
                  IN lines' = Append(lines, x) /\ rd' = StrictLine(rd, x, 0)
Next == Len(lines) < MaxRows /\ \E t \in Toks : \E q \in {"", "1"} : ReadLine(t, q)

Increasing == \A r \in 1..Len(lines) : \A k \in 2..Len(lines[r].f) : lines[r].f[k - 1][1] < lines[r].f[k][1]
(* numbered from zero beyond doubt: every line with features has number 0  *)
FromZero == \A r \in 1..Len(lines) : lines[r].f # <<>> => lines[r].f[1][1] = 0
FromOne  == \A r \in 1..Len(lines) : \A k \in 1..Len(lines[r].f) : lines[r].f[k][1] >= 1

AcceptedIsFaithful == rd.st = "ok" =>
    /\ QueriesAgree(lines)
    /\ \E b \in {0, 1} : Faithful(lines, b) /\ AsMatrix(rd.ld) = Place(lines, b, 0)
RefusedIsDoubtful == rd.st = "refused" => ~ (QueriesAgree(lines) /\ Increasing /\ (FromZero \/ FromOne))
OneReading == rd.st = "ok" => ~ (FromZero /\ FromOne) \/ \A r \in 1..Len(lines) : lines[r].f = <<>>
AgreesWithC01 == WellFormed(lines) => rd.st = "ok" /\ AsMatrix(rd.ld) = Matrix(lines, 0)
=============================================================================
