--------------------------------- MODULE C49 ---------------------------------
(* Questions in processes with other surroundings; st is what the          *)
(* surroundings have become since the start.                               *)
EXTENDS ReadOnly, ChainBase
(* what draws random numbers may leave the generator further on            *)
Random == {"significance", "bias", "parts"}
Seen(e) == {e.changed[k] : k \in 1..Len(e.changed)}
Ask == IsEvent("ask") /\
       Judge(     Fails("what is around was changed", Seen(Ev) \subseteq (IF Ev.q \in Random THEN {"numpy_random"} ELSE {}))
             \cup Fails("the answer depends on what is around", SameAnswer(Ev.got, Ev.want)),
             st \cup {Ev.set[k] : k \in 1..Len(Ev.set)})
Died == IsEvent("died") /\ Judge({"the process died"}, st)
Init == ChainInit({})
Next == Ask \/ Died
=============================================================================
