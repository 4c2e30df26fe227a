------------------------------ MODULE ThreadsMC ------------------------------
(***************************************************************************)
(* Threads that evaluate datasets with one metric, which keeps the ideal   *)
(* values of the datasets it has seen (entered when they are complete).    *)
(* A thread goes through its dataset query by query, at a position and     *)
(* into an array of results of its own; if position (SharedPos), dataset   *)
(* (SharedData) or array (SharedArray) are kept in the metric, there are   *)
(* schedules with wrong answers.  Filling the same ideal values twice does *)
(* no harm.  Forgetful: what is kept may be dropped between looking        *)
(* whether it is there and using it.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Data, Queries, SharedPos, SharedData, SharedArray, Forgetful
VARIABLES pc, asked, data, pos, arr, mine, kept, heap
vars == <<pc, asked, data, pos, arr, mine, kept, heap>>
(* what is shared is kept under 0, what a thread has under its own name    *)
P(t) == IF SharedPos THEN 0 ELSE t
D(t) == IF SharedData THEN 0 ELSE t
A(t) == IF SharedArray THEN 0 ELSE t
Keys == Threads \cup {0}
Blank == [q \in 1..Queries |-> 0]
Value(d, q) == 10 * d + q
Init == /\ pc = [t \in Threads |-> "look"] /\ asked \in [Threads -> Data]
        /\ data = [k \in Keys |-> CHOOSE x \in Data : TRUE] /\ pos = [k \in Keys |-> 0] /\ arr = [k \in Keys |-> 0]
        /\ mine = [t \in Threads |-> 0] /\ kept = {} /\ heap = <<>>
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Look(t) == /\ pc[t] = "look"
           /\ data' = [data EXCEPT ![D(t)] = asked[t]] /\ pos' = [pos EXCEPT ![P(t)] = 0]
           /\ Go(t, IF asked[t] \in kept THEN "array" ELSE "fill") /\ UNCHANGED <<asked, arr, mine, kept, heap>>
Fill(t) == pc[t] = "fill" /\ kept' = kept \cup {asked[t]} /\ Go(t, "array") /\ UNCHANGED <<asked, data, pos, arr, mine, heap>>
Array(t) == /\ pc[t] = "array" /\ heap' = Append(heap, Blank)
            /\ arr' = [arr EXCEPT ![A(t)] = Len(heap) + 1] /\ Go(t, "query")
            /\ mine' = [mine EXCEPT ![t] = 0] /\ UNCHANGED <<asked, data, pos, kept>>
(* mine counts the queries the thread has gone through                     *)
Query(t) == /\ pc[t] = "query" /\ mine[t] < Queries
            /\ LET v == IF data[D(t)] \in kept THEN Value(data[D(t)], pos[P(t)] + 1) ELSE 0 - 1 IN
               heap' = [heap EXCEPT ![arr[A(t)]][mine[t] + 1] = v]
            /\ pos' = [pos EXCEPT ![P(t)] = @ + 1] /\ mine' = [mine EXCEPT ![t] = @ + 1]
            /\ UNCHANGED <<pc, asked, data, arr, kept>>
Done(t) == /\ pc[t] = "query" /\ mine[t] = Queries
           /\ mine' = [mine EXCEPT ![t] = arr[A(t)]] /\ Go(t, "done") /\ UNCHANGED <<asked, data, pos, arr, kept, heap>>
Forget == Forgetful /\ kept # {} /\ kept' = {} /\ UNCHANGED <<pc, asked, data, pos, arr, mine, heap>>
Next == Forget \/ \E t \in Threads : Look(t) \/ Fill(t) \/ Array(t) \/ Query(t) \/ Done(t)
Right == \A t \in Threads : pc[t] = "done" => heap[mine[t]] = [q \in 1..Queries |-> Value(asked[t], q)]
=============================================================================
