------------------------------ MODULE TopologyMC ------------------------------
(***************************************************************************)
(* Numbering the nodes of a tree as in a full binary tree by a traversal   *)
(* from the root, whatever order the nodes are stored in: node n of the    *)
(* numbering has children 2n + 1 and 2n + 2; depth and column are the      *)
(* position of n + 1 in binary.  Agrees with Positions, Height, NumLeaves. *)
(***************************************************************************)
EXTENDS Forest, FiniteSetsExt
CONSTANTS MaxSplits
VARIABLES tree, stack, seen, height
RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {[o |-> 0]}
             ELSE UNION {{[f |-> 0, t |-> 0, l |-> a, r |-> b] : a \in Shapes(i), b \in Shapes(n - 1 - i)} : i \in 0..(n - 1)}
Init == /\ tree \in UNION {Shapes(n) : n \in 0..MaxSplits}
        /\ stack = << [t |-> tree, ix |-> 0, d |-> 0] >> /\ seen = {} /\ height = 0
Visit == /\ stack # <<>>
         /\ LET x == stack[Len(stack)]  rest == SubSeq(stack, 1, Len(stack) - 1) IN
            /\ seen' = seen \cup {<<x.ix, x.d>>}
            /\ height' = IF x.d > height THEN x.d ELSE height
            /\ stack' = IF IsLeaf(x.t) THEN rest
                        ELSE rest \o << [t |-> x.t.r, ix |-> 2 * x.ix + 2, d |-> x.d + 1], [t |-> x.t.l, ix |-> 2 * x.ix + 1, d |-> x.d + 1] >>
            /\ UNCHANGED tree
Next == Visit
RECURSIVE Pow(_), Log(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Log(n) == IF n <= 1 THEN 0 ELSE 1 + Log(n \div 2)
Place(ix) == <<Log(ix + 1), ix + 1 - Pow(Log(ix + 1))>>
Depths == \A s \in seen : Place(s[1])[1] = s[2]
Done == stack = <<>> => /\ {Place(s[1]) : s \in seen} = Positions(tree, 0, 0)
                        /\ Cardinality(seen) = NumNodes(tree)
                        /\ height = Height(tree)
                        /\ NumNodes(tree) = 2 * NumLeaves(tree) - 1
=============================================================================
