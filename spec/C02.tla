--------------------------------- MODULE C02 ---------------------------------
(* Sequences of loads of good and malformed files in one process.  The     *)
(* loader keeps no state: a malformed file is rejected naming its line, a  *)
(* good one is read as SvmFile says, whatever was loaded before.           *)
EXTENDS SvmFile, Rat, ChainBase

Load == /\ IsEvent("good")
        /\ LET e == Ev IN
           Judge(    Fails("a well-formed file is rejected", e.out.st = "ok")
              \cup (IF e.out.st # "ok" THEN {} ELSE
                        Fails("a good file is misread after earlier loads",
                              LET L == [k \in 1..Len(e.lines) |-> [lab |-> RF32(RDec(e.lines[k].lab)), q |-> e.lines[k].q,
                                          f |-> [j \in 1..Len(e.lines[k].f) |-> <<e.lines[k].f[j][1], RF32(RF64(RDec(e.lines[k].f[j][2])))>>]]]
                              IN  e.out.X = Matrix(L, "0") /\ e.out.y = Labels(L) /\ e.out.q = Qids(L))), st)

Reject == /\ IsEvent("bad")
          /\ LET e == Ev IN
             Judge(     Fails("a malformed file is accepted", e.out.st = "exc")
                   \cup Fails("the error does not name the offending line", e.out.st = "exc" => e.names), st)

Init == ChainInit("loader")
Next == Load \/ Reject
=============================================================================
