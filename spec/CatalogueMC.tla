----------------------------- MODULE CatalogueMC -----------------------------
(***************************************************************************)
(* Fetching several datasets of one catalogue into one data home.  Each    *)
(* entry says in which folder its data go and at which address they are;   *)
(* TLC takes every assignment of folders and addresses to three entries.   *)
(* When they are distinct, every answer holds the data of the dataset that *)
(* was asked for, whatever was fetched before and with whatever options.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS N, MaxCalls
VARIABLES folder, address, disk, got, calls
vars == <<folder, address, disk, got, calls>>
E == 1..N
Init == /\ folder \in [E -> E] /\ address \in [E -> E] /\ disk = [f \in E |-> 0] /\ got = [n |-> 1, v |-> 1] /\ calls = 0
(* what is published at address a belongs to dataset a                     *)
Fetch(n, force) == /\ calls < MaxCalls /\ calls' = calls + 1
                   /\ LET f == folder[n]
                          d == IF force \/ disk[f] = 0 THEN address[n] ELSE disk[f] IN
                      /\ disk' = [disk EXCEPT ![f] = d] /\ got' = [n |-> n, v |-> d]
                   /\ UNCHANGED <<folder, address>>
Next == \E n \in E, force \in BOOLEAN : Fetch(n, force)
Injective(f) == \A a, b \in E : f[a] = f[b] => a = b
Right == (Injective(folder) /\ address = [n \in E |-> n]) => got.v = got.n
=============================================================================
