----------------------------- MODULE InterruptMC -----------------------------
(***************************************************************************)
(* A metric that keeps the ideal values of the datasets it has seen, and a *)
(* position while it goes through one.  Evaluating a dataset takes several *)
(* steps, before each of which it may be cut; what is in the guarded part  *)
(* then still restores the position.  Setting the position before the      *)
(* guarded part starts (Unguarded), or entering the ideal values before    *)
(* they are complete (Early), breaks later answers.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Data, Queries, MaxCuts, Unguarded, Early
VARIABLES pc, data, kept, pos, k, answer, cuts
vars == <<pc, data, kept, pos, k, answer, cuts>>
None == 0
Ideal(d) == [q \in 1..Queries |-> <<d, q>>]
Blank == [q \in 1..Queries |-> <<"blank", q>>]
Init == /\ pc = "idle" /\ data \in Data
        /\ kept = [d \in Data |-> <<>>]
        /\ pos = None /\ k = 0 /\ answer = <<>> /\ cuts = 0
(* the whole dataset                                                       *)
Start(d) == /\ pc = "idle" /\ data' = d /\ k' = 0 /\ answer' = <<>>
            /\ pos' = IF Unguarded THEN 1 ELSE pos
            /\ kept' = IF Early /\ kept[d] = <<>> THEN [kept EXCEPT ![d] = Blank] ELSE kept
            /\ pc' = (IF kept[d] = <<>> THEN "ideal" ELSE "enter") /\ UNCHANGED cuts
Fill == /\ pc = "ideal" /\ k < Queries /\ k' = k + 1
        /\ kept' = IF Early THEN [kept EXCEPT ![data][k + 1] = <<data, k + 1>>] ELSE kept
        /\ UNCHANGED <<pc, data, pos, answer, cuts>>
Filled == /\ pc = "ideal" /\ k = Queries /\ kept' = [kept EXCEPT ![data] = Ideal(data)]
          /\ pc' = "enter" /\ UNCHANGED <<data, pos, k, answer, cuts>>
Enter == pc = "enter" /\ pos' = 1 /\ pc' = "go" /\ UNCHANGED <<data, kept, k, answer, cuts>>
Query == /\ pc = "go" /\ pos <= Queries
         /\ answer' = Append(answer, kept[data][pos]) /\ pos' = pos + 1
         /\ UNCHANGED <<pc, data, kept, k, cuts>>
Done == pc = "go" /\ pos > Queries /\ pos' = None /\ pc' = "answered" /\ UNCHANGED <<data, kept, k, answer, cuts>>
(* one query of a dataset, outside                                         *)
Single(d, q) == /\ pc = "idle"
                /\ answer' = <<IF pos = None THEN <<d, q>> ELSE IF pos \in DOMAIN kept[data] THEN kept[data][pos] ELSE <<"fails", q>>, <<d, q>>>>
                /\ pc' = "single" /\ UNCHANGED <<data, kept, pos, k, cuts>>
Rest == pc \in {"answered", "single"} /\ pc' = "idle" /\ answer' = <<>> /\ UNCHANGED <<data, kept, pos, k, cuts>>
Cut == /\ pc \in {"ideal", "enter", "go"} /\ cuts < MaxCuts /\ cuts' = cuts + 1
       /\ pos' = IF pc = "go" THEN None ELSE pos
       /\ pc' = "idle" /\ answer' = <<>> /\ UNCHANGED <<data, kept, k>>
Next == \/ \E d \in Data : Start(d) \/ \E q \in 1..Queries : Single(d, q)
        \/ Fill \/ Filled \/ Enter \/ Query \/ Done \/ Rest \/ Cut
Right == /\ pc = "answered" => answer = Ideal(data)
         /\ pc = "single" => answer[1] = answer[2]
Complete == pc = "idle" => \A d \in Data : kept[d] \in {<<>>, Ideal(d)}
=============================================================================
