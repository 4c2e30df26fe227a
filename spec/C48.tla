--------------------------------- MODULE C48 ---------------------------------
(* Calls written in different ways; st counts them.                        *)
EXTENDS ReadOnly, ChainBase
Call == IsEvent("call") /\
        Judge(     Fails("the call as documented fails", Ev.want.st = "ok" \/ "format" \in {Ev.others[k] : k \in 1..Len(Ev.others)})
              \cup Fails("the call is understood differently when it is written differently", SameAnswer(Ev.got, Ev.want)), st + 1)
Init == ChainInit(0)
Next == Call
=============================================================================
