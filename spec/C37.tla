--------------------------------- MODULE C37 ---------------------------------
(* Several files loaded by one call.                                       *)
EXTENDS SvmFile, Rat, JudgeBase

FltMax == "340282346638528859811704183484516925440"
Cell(tok) == LET v == RF32(RF64(RDec(tok))) IN IF v = "inf" THEN FltMax ELSE v
Decoded(ln) == [k \in 1..Len(ln) |-> [lab |-> RF32(RDec(ln[k].lab)), q |-> ln[k].q,
                  f |-> [j \in 1..Len(ln[k].f) |-> <<ln[k].f[j][1], Cell(ln[k].f[j][2])>>]]]

Verdict(r) ==
    IF r.spoilt THEN Fails("a list with a malformed file is loaded", r.out.st = "exc")
    ELSE IF r.out.st # "ok" THEN {"well-formed files are rejected"}
    ELSE IF Len(r.out.parts) # Len(r.files) THEN {"not one result for every file"}
    ELSE LET F == TLCEval([k \in 1..Len(r.files) |-> Decoded(r.files[k])])
             T == TLCEval(Together(F, "0"))
             P == r.out.parts
             K == 1..Len(F)
         IN  Fails("the matrices have different numbers of features",
                   \A k \in K : P[k].shape = <<Len(F[k]), WidthOfAll(F, Len(F))>>)
        \cup Fails("feature values", \A k \in K : P[k].X = T[k])
        \cup Fails("labels", \A k \in K : P[k].y = Labels(F[k]))
        \cup Fails("query ids", r.wantq => \A k \in K : P[k].q = Qids(F[k]))
        \cup Fails("element type is not float32", \A k \in K : P[k].f32)

Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
