--------------------------------- MODULE C39 ---------------------------------
(* Histories of questions.  The state is the number of answers given.      *)
EXTENDS ReadOnly, ChainBase

Ask == IsEvent("ask") /\
       Judge(     Fails("the answer is not the one fresh copies give", SameAnswer(Ev.got, Ev.want))
             \cup Fails("a model, dataset or metric was changed", Ev.changed = <<>>)
             \cup Fails("an answer given before was changed", Ev.lost = <<>>), st + 1)
Init == ChainInit(0)
Next == Ask
=============================================================================
