-------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* Pictures of tables.  A table has a dimension dataset, a dimension       *)
(* model, a third one (metric or label) and positions x; t.v[d][m][k][x]   *)
(* is its value.  A layout says which dimension tells the figures apart,   *)
(* which one the panels of a figure, which one the series of a panel, and  *)
(* which one the positions along a series ("none": there is nothing to     *)
(* tell apart).                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Layout(kind, compare) ==
    CASE kind = "performance"  -> [fig |-> "dataset", panel |-> "none",
                                   series |-> IF compare = "models" THEN "model" ELSE "third",
                                   pos |-> IF compare = "models" THEN "third" ELSE "model"]
      [] kind \in {"treewise", "querywise", "classes"} ->
             IF compare = "datasets" THEN [fig |-> "model", panel |-> "third", series |-> "dataset", pos |-> "x"]
             ELSE IF compare = "models" THEN [fig |-> "dataset", panel |-> "third", series |-> "model", pos |-> "x"]
             ELSE [fig |-> "dataset", panel |-> "model", series |-> "third", pos |-> "x"]
      [] kind = "contribution" -> [fig |-> "dataset", panel |-> "model", series |-> "none", pos |-> "x"]
      [] kind = "graded"       -> [fig |-> "dataset", panel |-> "model", series |-> "third", pos |-> "x"]
      [] kind = "confusion"    -> [fig |-> "dataset", panel |-> "model", series |-> "third", pos |-> "x"]

Comparisons(kind) ==
    CASE kind = "treewise" -> {"models", "metrics", "datasets"}
      [] kind \in {"performance", "querywise", "classes"} -> {"models", "metrics"}
      [] OTHER -> {"models"}

Dims == {"dataset", "model", "third", "x"}
(* names along a dimension of the table                                    *)
Names(t, d) == CASE d = "none" -> <<"">>
                 [] d = "dataset" -> t.dataset [] d = "model" -> t.model [] d = "third" -> t.third [] d = "x" -> t.x
(* the value where the dimensions of layout y have the indices f, p, s, x  *)
At(t, y, f, p, s, x) ==
    LET ix(d) == CASE y.fig = d -> f [] y.panel = d -> p [] y.series = d -> s [] y.pos = d -> x [] OTHER -> 1
    IN t.v[ix("dataset")][ix("model")][ix("third")][ix("x")]
=============================================================================
