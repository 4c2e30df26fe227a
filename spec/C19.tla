-------------------------------- MODULE C19 --------------------------------
(* Histories of evaluations with some DCG and NDCG objects.  The answers   *)
(* must not depend on the history, so there is no abstract state.          *)
EXTENDS Metrics, ChainBase
M == Hist.metrics[Ev.m]
Whole_ == /\ IsEvent("eval")
          /\ LET e == Ev  qs == Hist.data[e.ds] IN
             IF e.st # "ok" THEN Judge({"the evaluation fails"}, st)
             ELSE Judge(Fails("value of a query of a dataset", Len(e.det) = Len(qs)
                                /\ \A k \in 1..Len(qs) : Agrees(M.name, M.p, [y |-> qs[k], s |-> e.s[k]], e.det[k]))
                        \cup Fails("overall value", Overall(M.name, e.det, e.mean)), st)
Single_ == /\ IsEvent("query")
           /\ LET e == Ev IN
              IF e.st # "ok" THEN Judge({"the evaluation of a query fails"}, st)
              ELSE Judge(Fails("value of a single query", Agrees(M.name, M.p, [y |-> Hist.data[e.ds][e.k], s |-> e.s], e.val)), st)
(* an evaluation with predictions that do not fit the dataset              *)
Misfit_ == IsEvent("misfit") /\ Judge({}, st)
Init == ChainInit("none")
Next == Whole_ \/ Single_ \/ Misfit_
=============================================================================
