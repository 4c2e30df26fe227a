--------------------------------- MODULE C47 ---------------------------------
(* Rounds of questions asked at the same time; st counts the rounds.       *)
EXTENDS ReadOnly, ChainBase

Together == IsEvent("together") /\
            Judge(     Fails("a model, dataset or metric was changed", Ev.changed = <<>>)
                  \cup Fails("an answer was changed after it was given", Ev.lost = <<>>)
                  \cup Fails("an answer given at the same time as others is not the one given alone",
                             Len(Ev.got) = Len(Ev.want) /\ \A k \in 1..Len(Ev.got) : SameAnswer(Ev.got[k], Ev.want[k])), st + 1)
Init == ChainInit(0)
Next == Together
=============================================================================
