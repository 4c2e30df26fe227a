--------------------------------- MODULE C42 ---------------------------------
(* Documents scored alone, and in company.                                 *)
EXTENDS Company, JudgeBase
One(o) == IF o.st # "ok" THEN {"scoring fails"} ELSE
       Fails("an answer for every row", o.shape)
  \cup Fails("documents that were not asked for", Everyone(o.docs, o.seen))
Verdict(r) ==
    IF r.alone_st # "ok" THEN {"scoring a single document fails"} ELSE
    UNION {One(r.runs[k]) : k \in 1..Len(r.runs)}
    \cup UNION {IF r.runs[k].st # "ok" THEN {} ELSE Fails("an answer depends on the company: " \o r.runs[k].how \o ", " \o r.runs[k].when, Function(r.alone[r.runs[k].how], r.runs[k].seen)) : k \in 1..Len(r.runs)}
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
