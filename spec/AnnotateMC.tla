----------------------------- MODULE AnnotateMC -----------------------------
(***************************************************************************)
(* Counting from the leaves upwards: the instances at the leaves are known *)
(* and every split is the sum of its branches.  Early sums a split before  *)
(* its branches are known, Forgotten leaves out the leaves nothing reached *)
(* (and with them the sums above them).                                    *)
(***************************************************************************)
EXTENDS Annotate
CONSTANTS MaxSplits, MaxRows, Early, Forgotten
VARIABLES tree, exits, counts
RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {[o |-> 0]}
             ELSE UNION {{[f |-> 0, t |-> 0, l |-> a, r |-> b] : a \in Shapes(i), b \in Shapes(n - 1 - i)} : i \in 0..(n - 1)}
Init == /\ tree \in UNION {Shapes(n) : n \in 0..MaxSplits}
        /\ exits \in UNION {[1..k -> Ends(tree)] : k \in 0..MaxRows}
        /\ counts = [p \in Places(tree) |-> IF p \notin Ends(tree) THEN -1
                                            ELSE LET c == Reaching(exits, p) IN IF Forgotten /\ c = 0 THEN -1 ELSE c]
Known(p) == counts[p] >= 0
Next == \E p \in Places(tree) \ Ends(tree) :
        /\ ~ Known(p)
        /\ Early \/ (Known(p \o <<0>>) /\ Known(p \o <<1>>))
        /\ counts' = [counts EXCEPT ![p] = (IF Known(p \o <<0>>) THEN counts[p \o <<0>>] ELSE 0) + (IF Known(p \o <<1>>) THEN counts[p \o <<1>>] ELSE 0)]
        /\ UNCHANGED <<tree, exits>>
Right == \A p \in Places(tree) : Known(p) => counts[p] = Reaching(exits, p)
Done == ~ (ENABLED Next) => \A p \in Places(tree) : Known(p)
(* what the drawing may rely on                                            *)
All == Reaching(exits, <<>>) = Len(exits)
Sums == \A p \in Places(tree) \ Ends(tree) : Reaching(exits, p) = Reaching(exits, p \o <<0>>) + Reaching(exits, p \o <<1>>)
=============================================================================
