--------------------------------- MODULE C03 ---------------------------------
(* Dump then load, over the bit patterns of float32 cells: the file the    *)
(* writer should produce (SvmFile!Written) reads back as what was written. *)
EXTENDS SvmFile, JudgeBase

(* what the format cannot hold is refused, and an existing file kept       *)
Impossible(r) == Fails(r.kind \o " is written", r.refused)
            \cup (IF r.refused THEN Fails("a refused dump destroys the file", r.kept) ELSE {})

Trip(r) ==
    LET o == r.out
        file == Written(r.X, r.y, r.q, r.base)
    IN
    IF o.st # "ok" THEN {"dumping or loading back fails"} ELSE
        Fails("number of rows or columns", o.shape = <<Len(r.X), Len(r.X[1])>>)
   \cup Fails("features are not reproduced bit for bit",
              o.X = [k \in 1..Len(file) |-> [c \in 1..Len(file[k].f) |-> file[k].f[c][2]]])
   \cup Fails("labels are not reproduced bit for bit", o.y = Labels(file))
   \cup Fails("query ids are not reproduced", o.q = Qids(file))
   \cup Fails("the input was modified", o.intact)

Verdict(r) == IF r.kind = "trip" THEN Trip(r) ELSE Impossible(r)

Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
