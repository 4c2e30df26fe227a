------------------------------- MODULE SvmFile -------------------------------
(***************************************************************************)
(* SVMlight / libSVM text files with query ids.                            *)
(*                                                                         *)
(* A file is a sequence of lines.  A sample line is a record               *)
(*     [lab |-> label, q |-> query id or "", f |-> << <<id, value>>, ... >>]*)
(* where ids are strictly increasing positive integers.  Comment lines     *)
(* carry no information and do not appear here.                            *)
(*                                                                         *)
(* Declarative reading: the matrix a file describes.                       *)
(* Operational reading: a loader that sees one line at a time, does not    *)
(* know the final width, and keeps one flat buffer of cells that it widens *)
(* whenever a line uses a larger feature id.  SvmLoaderMC checks that the  *)
(* second refines the first after every line.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LOCAL Max2(a, b) == IF a >= b THEN a ELSE b

LineWidth(line) == IF line.f = <<>> THEN 0 ELSE line.f[Len(line.f)][1]

RECURSIVE WidthUpTo(_, _)
WidthUpTo(lines, n) ==
    IF n = 0 THEN 0 ELSE Max2(WidthUpTo(lines, n - 1), LineWidth(lines[n]))

Width(lines) == WidthUpTo(lines, Len(lines))

(* the row a line describes in a matrix of width w                         *)
Row(line, w, zero) ==
    LET ids == {line.f[k][1] : k \in 1..Len(line.f)}
        at  == [c \in ids |-> line.f[CHOOSE k \in 1..Len(line.f) : line.f[k][1] = c][2]]
    IN  [c \in 1..w |-> IF c \in ids THEN at[c] ELSE zero]

Matrix(lines, zero) == LET w == Width(lines) IN [r \in 1..Len(lines) |-> Row(lines[r], w, zero)]

Labels(lines) == [r \in 1..Len(lines) |-> lines[r].lab]
Qids(lines)   == IF \E r \in 1..Len(lines) : lines[r].q = "" THEN <<>>
                 ELSE [r \in 1..Len(lines) |-> lines[r].q]

WellFormed(lines) ==
    /\ Len(lines) > 0
    /\ \A r \in 1..Len(lines) :
       /\ lines[r].q = "" => lines[r].f # <<>>      \* a label followed by nothing is no sample
       /\ \A k \in 1..Len(lines[r].f) :
             /\ lines[r].f[k][1] >= 1
             /\ k > 1 => lines[r].f[k - 1][1] < lines[r].f[k][1]
    /\ \/ \A r \in 1..Len(lines) : lines[r].q = ""
       \/ \A r \in 1..Len(lines) : lines[r].q # ""

-----------------------------------------------------------------------------
(* The incremental loader: [buf, width, rows].                             *)

EmptyLoader == [buf |-> <<>>, width |-> 0, rows |-> 0]

(* re-lay `rows` rows of `old` cells as rows of `new` cells                 *)
Widen(buf, rows, old, new, zero) ==
    [k \in 1..(rows * new) |->
        LET r == (k - 1) \div new  c == ((k - 1) % new) + 1
        IN  IF c <= old THEN buf[r * old + c] ELSE zero]

AddLine(ld, line, zero) ==
    LET w == Max2(ld.width, LineWidth(line)) IN
    [buf   |-> Widen(ld.buf, ld.rows, ld.width, w, zero) \o Row(line, w, zero),
     width |-> w,
     rows  |-> ld.rows + 1]

AsMatrix(ld) == [r \in 1..ld.rows |-> [c \in 1..ld.width |-> ld.buf[(r - 1) * ld.width + c]]]

-----------------------------------------------------------------------------
(* Files that need not be well formed.  A reading of a file numbers the    *)
(* features from 1, or from 0 when the number 0 is used; it is faithful    *)
(* when every written value has its own place.  A file without a faithful  *)
(* reading, or with query ids on only some of its samples, describes no    *)
(* matrix and has to be refused.                                           *)

LOCAL Ids(line) == {line.f[k][1] : k \in 1..Len(line.f)}
LOCAL AllIds(lines) == UNION {Ids(lines[r]) : r \in 1..Len(lines)}

Faithful(lines, base) ==
    /\ base = 0 => 0 \in AllIds(lines)
    /\ \A c \in AllIds(lines) : c >= base
    /\ \A r \in 1..Len(lines) : Cardinality(Ids(lines[r])) = Len(lines[r].f)

QueriesAgree(lines) == \/ \A r \in 1..Len(lines) : lines[r].q = ""
                       \/ \A r \in 1..Len(lines) : lines[r].q # ""

Readable(lines) == QueriesAgree(lines) /\ \E b \in {0, 1} : Faithful(lines, b)

LOCAL MaxId(lines) == LET S == AllIds(lines) IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A c \in S : c <= m

(* the matrix of a faithful reading                                        *)
Place(lines, base, zero) ==
    LET w == IF AllIds(lines) = {} THEN 0 ELSE MaxId(lines) - base + 1
    IN  [r \in 1..Len(lines) |->
            LET ids == Ids(lines[r])
                at  == [c \in ids |-> lines[r].f[CHOOSE k \in 1..Len(lines[r].f) : lines[r].f[k][1] = c][2]]
            IN  [c \in 1..w |-> IF c + base - 1 \in ids THEN at[c + base - 1] ELSE zero]]

(* The strict incremental reader: it decides with the first feature it     *)
(* meets where numbering starts, and refuses whatever contradicts it.      *)
EmptyReader == [st |-> "ok", base |-> -1, ld |-> EmptyLoader, withq |-> 0]

StrictLine(rd, line, zero) ==
    IF rd.st # "ok" THEN rd ELSE
    LET first == IF line.f = <<>> THEN -1 ELSE IF line.f[1][1] = 0 THEN 0 ELSE 1
        base  == IF rd.base = -1 THEN first ELSE rd.base
        ok    == /\ first = -1 \/ first = base
                 /\ \A k \in 1..Len(line.f) : line.f[k][1] >= base
                 /\ \A k \in 2..Len(line.f) : line.f[k - 1][1] < line.f[k][1]
                 /\ rd.withq = IF line.q = "" THEN 0 ELSE rd.ld.rows
        moved == [line EXCEPT !.f = [k \in 1..Len(line.f) |-> <<line.f[k][1] + 1 - base, line.f[k][2]>>]]
    IN  IF ~ ok THEN [rd EXCEPT !.st = "refused"]
        ELSE [st |-> "ok", base |-> base, ld |-> AddLine(rd.ld, moved, zero),
              withq |-> rd.withq + (IF line.q = "" THEN 0 ELSE 1)]

-----------------------------------------------------------------------------
(* Files loaded together: each keeps its rows, all have the same columns.  *)
RECURSIVE WidthOfAll(_, _)
WidthOfAll(files, n) == IF n = 0 THEN 0 ELSE Max2(WidthOfAll(files, n - 1), Width(files[n]))

Together(files, zero) ==
    LET w == WidthOfAll(files, Len(files))
    IN  [k \in 1..Len(files) |-> [r \in 1..Len(files[k]) |-> Row(files[k][r], w, zero)]]

-----------------------------------------------------------------------------
(* The writer: a dense row per line, every column written.                 *)
Written(X, y, q, base) ==
    [r \in 1..Len(X) |->
        [lab |-> y[r], q |-> IF q = <<>> THEN "" ELSE q[r],
         f   |-> [c \in 1..Len(X[r]) |-> <<IF base = 0 THEN c - 1 ELSE c, X[r][c]>>]]]
=============================================================================
