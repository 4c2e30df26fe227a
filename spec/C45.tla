--------------------------------- MODULE C45 ---------------------------------
(* Histories of loading, using and dropping; st is what is held.           *)
EXTENDS Memory, ChainBase, SequencesExt
Slack == 300
RECURSIVE All(_, _)
All(s, new) == IF new = <<>> THEN s ELSE All(Take(s, Head(new).id, Head(new).kb), Tail(new))
Do == IsEvent("do") /\
      LET s == All(Leave(st, ToSet(Ev.gone)), Ev.new) IN
      Judge(     Fails("a step fails", Ev.st = "ok")
            \cup Fails("something that is held has changed", Ev.fine)
            \cup Fails("memory is kept that nobody holds", Ev.kb <= Most(s, Slack)), s)
Init == ChainInit(Nothing)
Next == Do
=============================================================================
