--------------------------------- MODULE C36 ---------------------------------
(* Histories of loads of doubtful, damaged and good files in one process.  *)
(* A load ends with an exception or with a faithful reading of the whole   *)
(* file; what describes no matrix is refused; the process survives, and    *)
(* good files are read as ever.                                            *)
EXTENDS SvmFile, Rat, ChainBase

FltMax == "340282346638528859811704183484516925440"
Cell(tok) == LET v == RF32(RF64(RDec(tok))) IN IF v = "inf" THEN FltMax ELSE v
Decoded(ln) == [k \in 1..Len(ln) |-> [lab |-> RF32(RDec(ln[k].lab)), q |-> ln[k].q,
                  f |-> [j \in 1..Len(ln[k].f) |-> <<ln[k].f[j][1], Cell(ln[k].f[j][2])>>]]]

Reads(o, L, base) == o.X = Place(L, base, "0") /\ o.y = Labels(L) /\ o.q = Qids(L)
                     /\ \A r \in 1..Len(o.X) : Len(o.X[r]) = o.shape[2]

Good == /\ IsEvent("good")
        /\ LET e == Ev IN
           Judge(Fails("a well-formed file is rejected", e.out.st = "ok")
            \cup (IF e.out.st # "ok" THEN {} ELSE
                  Fails("a good file is misread", Reads(e.out, TLCEval(Decoded(e.lines)), 1))), st)

(* numbering in doubt, out of order or repeated, or query ids missing      *)
Doubtful == /\ IsEvent("doubtful")
            /\ LET e == Ev IN
               Judge(IF e.out.st # "ok" THEN {} ELSE
                     LET L == TLCEval(Decoded(e.lines)) IN
                         Fails("a file that describes no matrix is loaded", Readable(L))
                    \cup (IF ~ Readable(L) THEN {} ELSE
                          Fails("a doubtful file is misread",
                                \E b \in {0, 1} : Faithful(L, b) /\ Reads(e.out, L, b))), st)

(* numbered from zero throughout, as dump_svmlight_file writes it          *)
Zero == /\ IsEvent("zero")
        /\ LET e == Ev IN
           Judge(Fails("a file numbered from zero is rejected", e.out.st = "ok")
            \cup (IF e.out.st # "ok" THEN {} ELSE
                  Fails("a file numbered from zero is misread", Reads(e.out, TLCEval(Decoded(e.lines)), 0))), st)

(* the archive or the stream is damaged: all of the data, or an exception  *)
Damaged == /\ IsEvent("damaged")
           /\ LET e == Ev IN
              Judge(IF e.out.st # "ok" THEN {} ELSE
                    Fails("damaged data are loaded", Reads(e.out, TLCEval(Decoded(e.lines)), 1)), st)

Hopeless == /\ IsEvent("hopeless")
            /\ Judge(Fails("what is no data is loaded", Ev.out.st # "ok"), st)

Init == ChainInit("loader")
Next == Good \/ Doubtful \/ Zero \/ Damaged \/ Hopeless
=============================================================================
