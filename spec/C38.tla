--------------------------------- MODULE C38 ---------------------------------
(* What models, datasets and metrics call themselves.                      *)
EXTENDS Names, JudgeBase

MetricV(r) == Fails("the text of a metric", r.out = MetricText(r.class, r.name, r.cutoff, r.thr))
DatasetV(r) ==
    LET d == DatasetText(r.name, r.rows, r.cols) IN
         Fails("the text of a dataset", r.out = d)
    \cup Fails("features were selected and the dataset is called otherwise", r.features \in {"", d})
    \cup Fails("the parts of a split", r.parts = [k \in 1..Len(r.parts) |-> PartText(d, IF k = 1 THEN "Train" ELSE IF k < Len(r.parts) THEN "Vali" ELSE "Test")])
    \cup Fails("a subset with a name", r.named = "mine")
    \cup Fails("a subset without a name", r.unnamed = DatasetText("", r.subrows, r.cols))
ModelV(r) == Fails("the text of a model", r.out = ModelText(r.name, r.path))
        \cup Fails("the text of its copies", r.copy = r.out /\ r.pruned = r.out)
        \cup Fails("the text of a model is changed by its copies", r.still)

Verdict(r) == IF r.st # "ok" THEN {"it has no text"}
              ELSE CASE r.kind = "metric" -> MetricV(r) [] r.kind = "dataset" -> DatasetV(r) [] OTHER -> ModelV(r)
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
