-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* How a call is written.  An operation has parameters in an order; some   *)
(* have a documented value that holds when they are left out.  A call      *)
(* gives the first k by position, others by name in any order, and leaves  *)
(* out some that are to have their documented value.  Bind says what each  *)
(* parameter is then worth.                                                *)
(* A value is a text: "given" (any value), "other" (a value that is not    *)
(* the documented one) or the documented one.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Need(n) == [n |-> n, v |-> "given"]
Opt(n, v) == [n |-> n, v |-> v]
Cutoff == Opt("cutoff", "None")
Sets == <<Need("datasets"), Need("models")>>
Cache == <<Opt("cache", "False")>>
Compare == Opt("compare", "'models'")
Shown == Opt("show_values", "False")

Signatures == [
  (* models *)
  load |-> <<Need("file_path"), Opt("name", "None"), Opt("format", "'QuickRank'"), Opt("base_score", "None"), Opt("learning_rate", "1"), Opt("n_trees", "None")>>,
  score |-> <<Need("dataset"), Opt("detailed", "False"), Opt("cache", "False")>>,
  save |-> <<Need("f"), Opt("format", "'QuickRank'")>>,
  copy |-> <<Opt("n_trees", "None")>>,
  leaf |-> <<Need("index")>>,
  Scorer |-> <<Need("model"), Need("dataset")>>,
  scored |-> <<Need("detailed")>>,
  (* data *)
  Dataset |-> <<Need("X"), Need("y"), Need("query_ids"), Opt("name", "None")>>,
  Dataset_load |-> <<Need("f"), Opt("name", "None"), Opt("format", "'svmlight'")>>,
  dump |-> <<Need("f"), Opt("format", "'svmlight'")>>,
  split |-> <<Need("train_size"), Opt("vali_size", "0"), Opt("random_state", "None")>>,
  subset |-> <<Need("query_ids"), Opt("name", "None")>>,
  subset_features |-> <<Need("features")>>,
  qids |-> <<Opt("dtype", "None")>>,
  offsets |-> <<Need("query_id")>>,
  kfold |-> <<Opt("n_folds", "5"), Opt("qids_only", "False"), Opt("shuffle", "True")>>,
  load_file |-> <<Need("f"), Opt("query_id", "False")>>,
  load_files |-> <<Need("files"), Opt("query_id", "False")>>,
  dump_file |-> <<Need("X"), Need("y"), Need("f"), Opt("query_id", "None"), Opt("zero_based", "False")>>,
  (* metrics *)
  Precision |-> <<Opt("name", "'P'"), Cutoff, Opt("threshold", "1")>>,
  Recall |-> <<Opt("name", "'R'"), Opt("no_relevant_results", "0.0"), Cutoff, Opt("threshold", "1")>>,
  MRR |-> <<Opt("name", "'MRR'"), Cutoff, Opt("threshold", "1")>>,
  MAP |-> <<Opt("name", "'MAP'"), Cutoff, Opt("no_relevant_results", "1.0")>>,
  DCG |-> <<Opt("name", "'DCG'"), Cutoff, Opt("implementation", "'flat'")>>,
  NDCG |-> <<Opt("name", "'NDCG'"), Cutoff, Opt("no_relevant_results", "1.0"), Opt("implementation", "'exp'")>>,
  ERR |-> <<Opt("name", "'ERR'"), Cutoff>>,
  RBP |-> <<Opt("name", "'RBP'"), Cutoff, Opt("threshold", "1"), Opt("p", "0.5")>>,
  Pfound |-> <<Opt("name", "'Pf'"), Cutoff, Opt("p_abandonment", "0.15")>>,
  MSE |-> <<Opt("name", "'MSE'"), Cutoff>>,
  RMSE |-> <<Opt("name", "'RMSE'"), Cutoff>>,
  Kendalltau |-> <<Opt("name", "'K'")>>,
  SpearmanRho |-> <<Opt("name", "'Rho'")>>,
  PrecisionMax |-> <<Opt("name", "'P'"), Cutoff>>,
  eval |-> <<Need("dataset"), Need("y_pred")>>,
  eval_per_query |-> <<Need("y"), Need("y_pred")>>,
  (* analyses *)
  model_performance |-> Sets \o <<Need("metrics")>> \o Cache,
  tree_wise_performance |-> Sets \o <<Need("metrics"), Opt("step", "10")>> \o Cache,
  tree_wise_average_contribution |-> Sets \o Cache,
  query_wise_performance |-> Sets \o <<Need("metrics"), Opt("bins", "None"), Opt("start", "None"), Opt("end", "None")>> \o Cache,
  query_class_performance |-> Sets \o <<Need("metrics"), Need("query_classes")>> \o Cache,
  document_graded_relevance |-> Sets \o <<Opt("bins", "100"), Opt("start", "None"), Opt("end", "None")>> \o Cache,
  rank_confusion_matrix |-> Sets \o <<Opt("skip_same_label", "False")>> \o Cache,
  feature_importance |-> <<Need("model"), Need("dataset"), Opt("metric", "None"), Opt("normalize", "True")>>,
  statistical_significance |-> <<Need("datasets"), Need("model_a"), Need("model_b"), Need("metrics"), Opt("n_perm", "100000")>> \o Cache,
  bias_variance |-> <<Need("datasets"), Need("algos"), Need("metrics"), Opt("L", "10"), Opt("k", "2")>>,
  topological_analysis |-> <<Need("model"), Opt("include_leaves", "True")>>,
  (* pictures *)
  plot_model_performance |-> <<Need("performance"), Compare, Shown>>,
  plot_query_class_performance |-> <<Need("performance"), Shown, Compare>>,
  plot_query_wise_performance |-> <<Need("performance"), Compare>>,
  plot_tree_wise_performance |-> <<Need("performance"), Compare>>,
  plot_tree_wise_average_contribution |-> <<Need("performance")>>,
  plot_document_graded_relevance |-> <<Need("performance")>>,
  plot_rank_confusion_matrix |-> <<Need("performance")>>,
  plot_feature_importance |-> <<Need("feature_perf"), Opt("max_features", "10"), Opt("sort_by", "'gain'"), Opt("feature_names", "None")>>,
  plot_shape |-> <<Need("topological"), Opt("max_level", "10")>>,
  export_graphviz |-> <<Need("ensemble"), Opt("tree_id", "0"), Opt("out_file", "None"), Opt("max_depth", "None"), Opt("output_leaves", "None"),
                        Opt("label", "'all'"), Opt("label_show", "False"), Opt("feature_names", "None"), Opt("highlight_leaves", "False"),
                        Opt("leaves_parallel", "False"), Opt("node_ids", "False"), Opt("rounded", "False"), Opt("proportion", "False"),
                        Opt("special_characters", "False"), Opt("precision", "3")>>]

(* the meaning: what each parameter is to be worth                         *)
Optional(s) == {j \in 1..Len(s) : s[j].v # "given"}
Meaning(s, others) == [j \in 1..Len(s) |-> IF j \in others THEN "other" ELSE s[j].v]
(* the ways to write it: k by position, the rest by name in an order, some of those with documented values left out *)
Writings(s, others, Few) ==
    UNION {LET may == {j \in (k + 1)..Len(s) : j \in Optional(s) \ others} IN
           UNION {LET kw == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : j > k /\ j \notin left) IN
                  {[k |-> k, kw |-> kw], [k |-> k, kw |-> Reverse(kw)]}
                  : left \in (IF Few THEN {{}, may} \cup {may \ {j} : j \in may} ELSE SUBSET may)}
           : k \in 0..Len(s)}
(* what the operation understands                                          *)
Bind(s, meaning, w) == [j \in 1..Len(s) |-> IF j <= w.k \/ \E x \in 1..Len(w.kw) : w.kw[x] = j THEN meaning[j] ELSE s[j].v]
=============================================================================
