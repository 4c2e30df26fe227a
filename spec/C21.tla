-------------------------------- MODULE C21 --------------------------------
(* Isolation: the value of every query in every arrangement of queries     *)
(* into datasets is the one it has alone.                                  *)
EXTENDS Metrics, JudgeBase

Same(a, b) == IF a = "nan" \/ b = "nan" THEN a = b ELSE RClose(a, b, "1/1000000", "1/1000000")
Docs(r, e) == FoldLeft(LAMBDA a, k : a + r.sizes[k], 0, e.perm)
Alone(r, e, k) == IF r.name # "MSE" \/ r.alone[k] = "nan" THEN r.alone[k] ELSE RDiv(r.alone[k], R(Docs(r, e)))
Verdict(r) ==
    UNION {LET e == r.evals[x] IN
           IF e.st # "ok" THEN {"the evaluation fails"} ELSE
           Fails("one value per query", Len(e.det) = Len(e.perm))
           \cup Fails("a query's value in a dataset is not its value alone",
                      Len(e.det) = Len(e.perm) => \A k \in 1..Len(e.perm) : Same(e.det[k], Alone(r, e, e.perm[k])))
           \cup Fails("overall value", Overall(r.name, e.det, e.mean))
           \cup Fails("the inputs are modified", e.kept)
           \cup Fails("a later evaluation changes the values returned", e.still)
           : x \in 1..Len(r.evals)}
    \cup Fails("predictions that are not one per row are accepted", \A x \in 1..Len(r.wrong) : r.wrong[x].refused)
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
