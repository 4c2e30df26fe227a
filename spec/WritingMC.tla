------------------------------ MODULE WritingMC ------------------------------
(***************************************************************************)
(* Pieces written through a buffer onto a device with room for cap bytes.  *)
(* The last bytes leave the buffer when the file is closed: a writer that  *)
(* does not look at the outcome of writes (Careless) or of closing         *)
(* (NoClose) reports success for a file that is cut.                       *)
(***************************************************************************)
EXTENDS Writing, Sequences
CONSTANTS MaxPieces, MaxSize, Buffer, Careless, NoClose
VARIABLES pieces, cap, need, buf, disk, told
vars == <<pieces, cap, need, buf, disk, told>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Init == /\ pieces \in UNION {[1..n -> 1..MaxSize] : n \in 0..MaxPieces}
        /\ cap \in -1..(MaxPieces * MaxSize + 1) /\ need = Sum(pieces) /\ buf = 0 /\ disk = 0 /\ told = "nothing yet"
Room == IF cap < 0 THEN buf ELSE IF cap - disk < buf THEN cap - disk ELSE buf
Write == /\ told = "nothing yet" /\ pieces # <<>> /\ buf < Buffer
         /\ buf' = buf + Head(pieces) /\ pieces' = Tail(pieces) /\ UNCHANGED <<cap, need, disk, told>>
(* the buffer goes to the device when it is full                           *)
Flush == /\ told = "nothing yet" /\ buf >= Buffer
         /\ disk' = disk + Room /\ buf' = 0
         /\ told' = IF Room = buf \/ Careless THEN told ELSE "failure"
         /\ UNCHANGED <<pieces, cap, need>>
Close == /\ told = "nothing yet" /\ pieces = <<>> /\ buf < Buffer
         /\ disk' = disk + Room /\ buf' = 0
         /\ told' = IF Room = buf \/ Careless \/ NoClose THEN "success" ELSE "failure"
         /\ UNCHANGED <<pieces, cap, need>>
Next == Write \/ Flush \/ Close
Right == told # "nothing yet" => /\ Honest(told = "success", disk = need)
                                 /\ Possible(need, cap, told = "success")
=============================================================================
