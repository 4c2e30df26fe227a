------------------------------ MODULE JudgeBase ------------------------------
(***************************************************************************)
(* Trace validation of independent observations.  The driver records one   *)
(* JSON object per call (or per self-contained experiment) of the real     *)
(* code; every observation is an initial state and is judged by one step.  *)
(* A verdict is the set of the names of the clauses the observation        *)
(* breaks: it is total, and the run accepts only if every line is judged.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

VARIABLES i, bad

Obs == ndJsonDeserialize(IOEnv.OBS)

Pending == {"?"}

JudgeInit == i \in 1..Len(Obs) /\ bad = Pending

JudgeStep(v) == /\ bad = Pending
                /\ bad' = v
                /\ UNCHANGED i
                /\ v = {} \/ PrintT(ToJson([line |-> i, bad |-> v]))

AllJudged == TLCGet("stats").distinct = 2 * Len(Obs)

(* name of a clause, if it does not hold                                   *)
Fails(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
