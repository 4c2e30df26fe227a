------------------------------ MODULE MetricJudge ------------------------------
(* Judging one metric on one dataset: values per query, alone and in the   *)
(* dataset, and overall.                                                   *)
EXTENDS Metrics
LOCAL Fails(name, holds) == IF holds THEN {} ELSE {name}
MetricVerdict(r) ==
    IF r.st # "ok" THEN {"the metric cannot be evaluated"} ELSE
    LET n == Len(r.qs) IN
       Fails("value of a single query", Len(r.alone) = n /\ \A k \in 1..n : Agrees(r.name, r.p, r.qs[k], r.alone[k]))
  \cup Fails("value of a query of a dataset", Len(r.det) = n /\ \A k \in 1..n : AgreesIn(r.name, r.p, r.qs, r.qs[k], r.det[k]))
  \cup Fails("overall value", Overall(r.name, r.det, r.mean))
=============================================================================
