--------------------------------- MODULE C40 ---------------------------------
(* Simultaneous fetches under recorded schedules, and two fetches later.   *)
EXTENDS FetchRace, JudgeBase, SequencesExt

Complete(r, p) ==
    LET F == r.pub.folds[IF r.cat.folds = 0 THEN 1 ELSE p.fold] IN
    /\ p.out.train = F.train /\ p.out.test = F.test
    /\ p.out.vali = IF r.cat.vali THEN F.vali ELSE [n |-> 0]
    /\ r.cat.license => p.out.lic = r.pub.lic
    /\ IF p.models THEN ToSet(p.out.models) = ToSet(F.models) /\ Len(p.out.models) = Len(F.models) ELSE p.out.models = <<>>

Verdict(r) ==
    LET P == r.procs  A == r.after IN
         Fails("an answer is not the complete data", \A k \in 1..Len(P) : Ok(P[k]) => Complete(r, P[k]))
    \cup Fails("a fetch fails because of another one", \A k \in 1..Len(P) : P[k].out.st = "exc" => MayFail(P, k))
    \cup Fails("fetches wait for each other forever", \A k \in 1..Len(P) : P[k].out.st # "stuck")
    \cup Fails("a later answer is not the complete data", \A k \in 1..2 : Ok(A[k]) => Complete(r, A[k]))
    \cup Fails("what was fetched is not there", Stays(P, r.before, A[1].models) => Ok(A[1]))
    \cup Fails("a later fetch fails", Ok(A[2]))
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
