----------------------------- MODULE SurroundMC -----------------------------
(***************************************************************************)
(* A process with settings that belong to the program; the library may     *)
(* need one of them to have a value of its own while it works, and puts it *)
(* back at the end, also when the work fails (unless Careless), and its    *)
(* answers use only what it was asked and what it set itself (unless       *)
(* Reading).  Forgetting: it does not put it back.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Settings, Values, Inputs, Careless, Reading, Forgetting
VARIABLES now, want, pc, input, saved, answer
vars == <<now, want, pc, input, saved, answer>>
Own == 0
None == 0 - 1
F(x, v) == <<x, v>>
Init == /\ now \in [Settings -> Values] /\ want = now /\ pc = "program"
        /\ input \in Inputs /\ saved = None /\ answer = <<>>
Change(s, v) == pc = "program" /\ now' = [now EXCEPT ![s] = v] /\ want' = [want EXCEPT ![s] = v] /\ answer' = <<>> /\ UNCHANGED <<pc, input, saved>>
Enter(s, x) == /\ pc = "program" /\ pc' = "work" /\ input' = x /\ saved' = <<s, now[s]>> /\ now' = [now EXCEPT ![s] = Own]
               /\ answer' = <<>> /\ UNCHANGED want
Answer == /\ pc = "work" /\ LET s == saved[1] IN
             /\ answer' = F(input, IF Reading THEN [x \in Settings |-> now[x]] ELSE [x \in Settings |-> IF x = s THEN now[x] ELSE None])
             /\ now' = IF Forgetting THEN now ELSE [now EXCEPT ![s] = saved[2]]
          /\ pc' = "answered" /\ UNCHANGED <<want, input, saved>>
Fail == /\ pc = "work" /\ now' = (IF Careless THEN now ELSE [now EXCEPT ![saved[1]] = saved[2]])
        /\ pc' = "failed" /\ UNCHANGED <<want, input, saved, answer>>
Go == pc \in {"answered", "failed"} /\ pc' = "program" /\ saved' = None /\ answer' = <<>> /\ UNCHANGED <<now, want, input>>
Next == \/ \E s \in Settings : (\E v \in Values : Change(s, v)) \/ (\E x \in Inputs : Enter(s, x))
        \/ Answer \/ Fail \/ Go
Left == pc # "work" => now = want
Only == pc = "answered" => answer = F(input, [x \in Settings |-> IF x = saved[1] THEN Own ELSE None])
=============================================================================
