------------------------------- MODULE NeedsMC -------------------------------
(***************************************************************************)
(* A file of a header and trees, every one with splits of several kinds    *)
(* and a note about itself, read line by line.  A reader that looks at the *)
(* first split of a line only (First), that has left the header behind     *)
(* when it starts to look (Body), or that lets a later line make up for an *)
(* earlier one (Last) takes files it should refuse.                        *)
(***************************************************************************)
EXTENDS Needs
CONSTANTS MaxTrees, MaxSplits, First, Body, Last
VARIABLES header, trees, pos, refused
vars == <<header, trees, pos, refused>>
Kinds == {"", "categories", "another comparison"}
Notes == {"", "linear leaves"}
Headers == {"", "classes"}
Trees == {[splits |-> s, note |-> n] : s \in UNION {[1..k -> Kinds] : k \in 0..MaxSplits}, n \in Notes}
Init == /\ header \in Headers /\ trees \in UNION {[1..k -> Trees] : k \in 1..MaxTrees}
        /\ pos = 0 /\ refused = FALSE
At(t) == {t.splits[k] : k \in 1..(IF First /\ t.splits # <<>> THEN 1 ELSE Len(t.splits))} \cup {t.note}
Seen == IF pos = 0 THEN (IF Body THEN {} ELSE {header}) ELSE At(trees[pos])
Next == /\ pos <= Len(trees)
        /\ refused' = ((~ Last /\ refused) \/ Seen \ {""} # {})
        /\ pos' = pos + 1 /\ UNCHANGED <<header, trees>>
Needs == ({header} \cup UNION {{trees[k].note} \cup {trees[k].splits[j] : j \in 1..Len(trees[k].splits)} : k \in 1..Len(trees)}) \ {""}
Decided == pos > Len(trees) => Right("LightGBM", Needs, ~ refused)
=============================================================================
