--------------------------------- MODULE C51 ---------------------------------
(* Histories of copies; st is the sequence of the kinds of the pools there  *)
(* are, of which there is always one.                                       *)
EXTENDS ReadOnly, ChainBase

Ask == IsEvent("ask") /\
       Judge(Fails("a copy does not answer as what it is a copy of, made anew, would", SameAnswer(Ev.got, Ev.want)), st)
Copy == IsEvent("copy") /\
        Judge(Fails("no copy is made", Ev.why = "")
              \cup Fails("a copy is not the same, or what is copied was changed", Ev.differ = <<>>)
              \cup Fails("in another process a copy does not answer as here",
                         Len(Ev.got) = Len(Ev.want) /\ \A k \in DOMAIN Ev.got : SameAnswer(Ev.got[k], Ev.want[k])),
              IF Ev.why = "" THEN st + 1 ELSE st)
(* many things of a kind, about each of which a copy is asked               *)
Crowd == IsEvent("crowd") /\
         Judge(Fails("a copy answers with what others remembered", \A k \in DOMAIN Ev.got : SameAnswer(Ev.got[k], Ev.want[k])), st)
Change == IsEvent("change") /\ st > 1 /\
          Judge(Fails("a change of one copy is one of another", Ev.touched = <<>>), st - 1)
Drop == IsEvent("drop") /\ st > 1 /\
        Judge(Fails("the end of one copy is felt by another", Ev.touched = <<>>), st - 1)
Make == IsEvent("make") /\ Judge({}, st + 1)
Init == ChainInit(1)
Next == Ask \/ Copy \/ Crowd \/ Change \/ Drop \/ Make
=============================================================================
