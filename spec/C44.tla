--------------------------------- MODULE C44 ---------------------------------
(* Files that need what the library does not have, and formats it lacks.   *)
EXTENDS Needs, JudgeBase, SequencesExt
Load(r) ==
    LET needs == ToSet(r.needs) IN
       Fails("the driver names something unheard of", needs \subseteq Needed)
  \cup Fails("a model that needs more than the library can do is loaded", needs = {} \/ Right(r.fmt, needs, r.taken))
  \cup Fails("a model within what the library can do is refused", needs # {} \/ Right(r.fmt, needs, r.taken))
  \cup Fails("another model than that of the file is loaded", (needs = {} /\ r.taken) => r.same)
  \cup Fails("a refused file is changed", r.intact)
Save(r) ==
       Fails("a format that cannot be written is reported as written", r.fmt \in Writable \/ ~ r.told)
  \cup Fails("a format that can be written is not", r.fmt \in Writable => r.told)
  \cup Fails("what was in the place of a file that cannot be written is gone", r.fmt \in Writable \/ r.kept)
  \cup Fails("the model is changed", r.intact)
Format(r) == Fails("a file of an unknown format is loaded", ~ r.taken)
Verdict(r) == CASE r.op = "load" -> Load(r) [] r.op = "save" -> Save(r) [] r.op = "format" -> Format(r)
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
