----------------------------- MODULE FetcherGen -----------------------------
(* Every sequence of two (thorough: and some of three) requests with every *)
(* combination of options and a failing download of either part.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
T == IOEnv.TIER = "thorough"
Faults == {"none", "refuse d", "refuse m", "short d", "short m"}
Calls == [dl : BOOLEAN, force : BOOLEAN, models : BOOLEAN, fault : Faults]
Sound == {c \in Calls : (~ c.dl => c.fault = "none") /\ (~ c.models => c.fault \notin {"refuse m", "short m"})}
Two == {<<a, b>> : a \in Sound, b \in Sound}
Three == {<<a, b, c>> : a \in {x \in Sound : x.dl}, b \in Sound, c \in {x \in Sound : x.fault = "none"}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[calls |-> s] : s \in IF T THEN Two \cup Three ELSE Two}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
