-------------------------------- MODULE Needs --------------------------------
(***************************************************************************)
(* What a model file may need of its reader.  An ensemble here is a sum of *)
(* trees of one output each, whose splits compare one feature with one     *)
(* threshold, and whose leaves are constants.  A file that needs more than *)
(* that is not read as a model that needs less.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Readable == {"QuickRank", "XGBoost", "ScikitLearn", "LightGBM", "Jforests", "CatBoost"}
Writable == {"QuickRank"}
Needed == {"categories", "missing values", "default values", "classes", "linear leaves", "several outputs",
           "another comparison", "indicator", "named features", "no trees"}
(* a file of a format is taken exactly when it needs nothing more          *)
Right(fmt, needs, taken) == taken <=> fmt \in Readable /\ needs = {}
=============================================================================
