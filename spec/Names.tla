-------------------------------- MODULE Names --------------------------------
(* What models, datasets and metrics are called wherever results are shown. *)
EXTENDS Integers, Sequences

Default == [P |-> "P", R |-> "R", PMax |-> "P", MRR |-> "MRR", MAP |-> "MAP", RBP |-> "RBP", ERR |-> "ERR", Pf |-> "Pf",
            DCG |-> "DCG", NDCG |-> "NDCG", MSE |-> "MSE", RMSE |-> "RMSE", K |-> "K", Rho |-> "Rho"]

LOCAL Given(name, else) == IF name = "" THEN else ELSE name
WithCutoff    == DOMAIN Default \ {"K", "Rho"}
WithThreshold == {"P", "R", "MRR", "RBP"}

(* cutoff and threshold are texts; "" when not given, "1" is the default   *)
MetricText(class, name, cutoff, thr) ==
    Given(name, Default[class])
    \o (IF class \in WithCutoff /\ cutoff # "" THEN "@" \o cutoff ELSE "")
    \o (IF class \in WithThreshold /\ thr \notin {"", "1", "1.0"} THEN "[>" \o thr \o "]" ELSE "")

DatasetText(name, rows, cols) == Given(name, "Dataset (" \o rows \o ", " \o cols \o ")")
PartText(dataset, part) == dataset \o " " \o part
ModelText(name, path) == Given(name, "RTEnsemble: " \o path)
=============================================================================
