------------------------------- MODULE FoldMC -------------------------------
(* The rotation of folds, for every number of queries and folds.           *)
EXTENDS Data, TLC
CONSTANTS MaxN
VARIABLES n, folds, cur
Init == n \in 2..MaxN /\ folds \in 2..n /\ cur = 0
Next == cur < folds - 1 /\ cur' = cur + 1 /\ UNCHANGED <<n, folds>>

R0 == Roles(n, folds, cur)
CircleAgrees == CircleRoles(n, folds, cur) = R0
Partition == /\ R0.test \cap R0.vali = {} /\ R0.train \cap (R0.test \cup R0.vali) = {}
             /\ R0.test \cup R0.vali \cup R0.train = 0..(n - 1)
OnceEach == cur = 0 => \A p \in 0..(n - 1) :
    /\ Cardinality({c \in 0..(folds - 1) : p \in Roles(n, folds, c).test}) = 1
    /\ Cardinality({c \in 0..(folds - 1) : p \in Roles(n, folds, c).vali}) = 1
    /\ Cardinality({c \in 0..(folds - 1) : p \in Roles(n, folds, c).train}) = folds - 2
Sizes == /\ Cardinality(R0.test) - (n \div folds) \in 0..(n % folds)
         /\ Cardinality(R0.vali) - (n \div folds) \in 0..(n % folds)
=============================================================================
