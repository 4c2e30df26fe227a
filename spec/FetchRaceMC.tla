----------------------------- MODULE FetchRaceMC -----------------------------
(***************************************************************************)
(* Several processes fetch one dataset at the same time, step by step as   *)
(* datasets_fetcher.py works on the disk.  A dataset is two files.  The    *)
(* folder is absent or a set of files; each work folder is absent or holds *)
(* some of them.  A process may be killed anywhere.                        *)
(*   Shared: all processes work in one folder (the design that fails).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Forcing, Shared, MayDie
VARIABLES pc, folder, work, seen
vars == <<pc, folder, work, seen>>
Absent == {0}
Files == {1, 2}
W(p) == IF Shared THEN 0 ELSE p
Names == IF Shared THEN {0} ELSE Procs

Init == /\ pc = [p \in Procs |-> IF p \in Forcing THEN "away" ELSE "missing?"]
        /\ folder = Absent /\ work = [n \in Names |-> Absent] /\ seen = [p \in Procs |-> {}]
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Write(p, f) == work' = [work EXCEPT ![W(p)] = f]
Here(p) == work[W(p)]

(* a forced fetch first takes the folder away                              *)
Away(p) == pc[p] = "away" /\ folder' = Absent /\ Go(p, "missing?") /\ UNCHANGED <<work, seen>>
Missing(p) == /\ pc[p] = "missing?"
              /\ Go(p, IF folder = Absent THEN (IF Shared THEN "clean" ELSE "mkdir") ELSE "read1")
              /\ UNCHANGED <<folder, work, seen>>
Clean(p) == pc[p] = "clean" /\ Write(p, Absent) /\ Go(p, "mkdir") /\ UNCHANGED <<folder, seen>>
Mkdir(p) == /\ pc[p] = "mkdir"
            /\ IF Here(p) = Absent THEN Write(p, {}) /\ Go(p, "file1") ELSE UNCHANGED work /\ Go(p, "failed")
            /\ UNCHANGED <<folder, seen>>
File(p, n) == /\ pc[p] = <<"file1", "file2">>[n]
              /\ IF Here(p) = Absent THEN UNCHANGED work /\ Go(p, "failed")
                 ELSE Write(p, Here(p) \cup {n}) /\ Go(p, <<"file2", "publish">>[n])
              /\ UNCHANGED <<folder, seen>>
(* renaming onto a folder that holds something fails: somebody was faster  *)
Publish(p) == /\ pc[p] = "publish"
              /\ IF Here(p) = Absent THEN UNCHANGED <<work, folder>> /\ Go(p, "failed")
                 ELSE IF folder = Absent THEN folder' = Here(p) /\ Write(p, Absent) /\ Go(p, "read1")
                 ELSE UNCHANGED <<work, folder>> /\ Go(p, IF Shared THEN "failed" ELSE "read1")
              /\ UNCHANGED seen
Read(p, n) == /\ pc[p] = <<"read1", "read2">>[n]
              /\ IF folder # Absent /\ n \in folder THEN seen' = [seen EXCEPT ![p] = @ \cup {n}] /\ Go(p, <<"read2", "ok">>[n])
                 ELSE UNCHANGED seen /\ Go(p, "failed")
              /\ UNCHANGED <<folder, work>>
Die(p) == MayDie /\ pc[p] \notin {"ok", "failed", "dead"} /\ Go(p, "dead") /\ UNCHANGED <<folder, work, seen>>
Next == \E p \in Procs : Away(p) \/ Missing(p) \/ Clean(p) \/ Mkdir(p) \/ (\E n \in 1..2 : File(p, n) \/ Read(p, n)) \/ Publish(p) \/ Die(p)
Spec == Init /\ [][Next]_vars

CompleteOrAbsent == folder \in {Absent, Files}
AnswersComplete == \A p \in Procs : pc[p] = "ok" => seen[p] = Files
(* only what another process takes away can make a fetch fail              *)
FailuresExplained == \A p \in Procs : pc[p] = "failed" => Forcing \ {p} # {}
(* what was fetched stays, unless it is taken away again                   *)
Stays == Forcing = {} /\ (\E p \in Procs : pc[p] = "ok") => folder = Files
=============================================================================
