--------------------------------- MODULE C43 ---------------------------------
(* Datasets, models and drawings written where there may be no room.       *)
EXTENDS Writing, JudgeBase
Verdict(r) ==
       Fails("success is reported for an incomplete file", Honest(r.told, r.whole))
  \cup Fails("writing fails although there is room", Possible(r.need, r.cap, r.told))
  \cup Fails("a file too large for the room is reported as written", r.told => Fits(r.need, r.cap))
  \cup Fails("after a failure, with room, the file is not written completely", r.again)
  \cup Fails("a stream of the caller is closed", r.open)
  \cup Fails("what is written is changed by writing it", r.intact)
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
