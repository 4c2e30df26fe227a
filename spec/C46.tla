--------------------------------- MODULE C46 ---------------------------------
(* Histories of questions, some of them cut; st counts what was answered.  *)
EXTENDS ReadOnly, ChainBase

Still == Fails("a model, dataset or metric was changed", Ev.changed = <<>>)
         \cup Fails("an answer given before was changed", Ev.lost = <<>>)
Ask == IsEvent("ask") /\
       Judge(Still \cup Fails("after an interruption the answer is not the one fresh copies give", SameAnswer(Ev.got, Ev.want)), st + 1)
(* a cut question has no answer; one that got its answer all the same has  *)
(* the right one                                                           *)
Cut == IsEvent("cut") /\
       Judge(Still \cup Fails("an interrupted question is answered wrongly", Ev.got.st = "cut" \/ SameAnswer(Ev.got, Ev.want)), st)
Init == ChainInit(0)
Next == Ask \/ Cut
=============================================================================
