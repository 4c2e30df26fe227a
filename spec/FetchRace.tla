------------------------------ MODULE FetchRace ------------------------------
(***************************************************************************)
(* What simultaneous fetches of one dataset owe their callers.  A process  *)
(* p asks with p.dl, p.force and p.models; it ends with "ok", "exc" (it    *)
(* says that it failed) or "dead".  Only one version is published, so all  *)
(* complete data are alike.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Forces(p) == p.dl /\ p.force
Ok(p) == p.out.st = "ok"

(* only what another one takes away can make a fetch fail                  *)
MayFail(P, k) == ~ P[k].dl \/ \E j \in 1..Len(P) : j # k /\ Forces(P[j])

(* with all ended, whether the part m (models) or not is certainly there   *)
Stays(P, before, models) ==
    /\ before \/ \E k \in 1..Len(P) : Ok(P[k]) /\ (models => P[k].models)
    /\ \/ \A k \in 1..Len(P) : ~ Forces(P[k])
       \/ ~ models /\ \A k \in 1..Len(P) : Ok(P[k])
=============================================================================
