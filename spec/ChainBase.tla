------------------------------ MODULE ChainBase ------------------------------
(***************************************************************************)
(* Trace validation of histories.  Every observation line is one history:  *)
(* a record with a sequence ev of events recorded from the real code, each *)
(* with the name of the action (op), its arguments and what was observed.  *)
(* One step consumes one event; st is the abstract state the specification *)
(* reaches; bad is the set of clauses broken by the event just consumed.   *)
(* A history stops at the first event that the specification rejects.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

VARIABLES i, l, st, bad

Obs == ndJsonDeserialize(IOEnv.OBS)

Hist == Obs[i]
Ev == Obs[i].ev[l]

ChainInit(s0) == i \in 1..Len(Obs) /\ l = 1 /\ st = s0 /\ bad = {}
(* initial state taken from the history itself                             *)
ChainInitFrom(S0(_)) == i \in 1..Len(Obs) /\ l = 1 /\ st = S0(Obs[i]) /\ bad = {}

IsEvent(name) == bad = {} /\ l <= Len(Obs[i].ev) /\ Ev.op = name

(* consume the event with verdict v, moving to abstract state s            *)
Judge(v, s) == /\ bad' = v
               /\ l' = l + 1
               /\ st' = s
               /\ UNCHANGED i
               /\ v = {} \/ PrintT(ToJson([line |-> i, at |-> l, bad |-> v]))

Fails(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
