--------------------------------- MODULE C01 ---------------------------------
(* Conformance of load_svmlight_file / Dataset.load with SvmFile.          *)
EXTENDS SvmFile, Rat, JudgeBase

FltMax == "340282346638528859811704183484516925440"
(* a written token is read as binary64 and stored as binary32; plus        *)
(* infinity is stored as the largest finite binary32                       *)
Cell(tok) == LET v == RF32(RF64(RDec(tok))) IN IF v = "inf" THEN FltMax ELSE v
LabelOf(tok) == RF32(RDec(tok))

(* cell tokens are decoded once per line                                   *)
Decoded(l) == [lab |-> LabelOf(l.lab), q |-> l.q, f |-> [k \in 1..Len(l.f) |-> <<l.f[k][1], Cell(l.f[k][2])>>]]

Verdict(r) ==
    LET o == r.out IN
    IF ~ WellFormed(r.lines) THEN {"driver: the file is not well formed"}
    ELSE IF o.st # "ok" THEN {"a well-formed file is rejected"}
    ELSE LET L == [k \in 1..Len(r.lines) |-> Decoded(r.lines[k])] IN
        Fails("number of rows or columns", o.shape = <<Len(L), Width(L)>>)
   \cup Fails("feature values", o.X = Matrix(L, "0"))
   \cup Fails("labels", o.y = Labels(L))
   \cup Fails("query ids", r.wantq => o.q = Qids(L))
   \cup Fails("element type is not float32", o.f32)

Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
