-------------------------------- MODULE DotMC --------------------------------
(***************************************************************************)
(* Drawing a tree with a stack of nodes still to be drawn: the drawing is  *)
(* a drawing of the tree for every depth limit.                            *)
(***************************************************************************)
EXTENDS Dot
CONSTANTS MaxSplits, CropLate
VARIABLES tree, max, g, stack, num
RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {[o |-> 0]}
             ELSE UNION {{[f |-> 0, t |-> 0, l |-> a, r |-> b] : a \in Shapes(i), b \in Shapes(n - 1 - i)} : i \in 0..(n - 1)}
Init == /\ tree \in UNION {Shapes(n) : n \in 0..MaxSplits} /\ max \in -1..3
        /\ g = [nodes |-> <<>>, edges |-> <<>>] /\ stack = << [t |-> tree, d |-> 0, from |-> -1] >> /\ num = 0
Next == /\ stack # <<>>
        /\ LET x == stack[Len(stack)]
               rest == SubSeq(stack, 1, Len(stack) - 1)
               crop == max >= 0 /\ x.d > max + (IF CropLate THEN 1 ELSE 0)
               kind == IF crop THEN "crop" ELSE IF IsLeaf(x.t) THEN "leaf" ELSE "split"
           IN /\ g' = [nodes |-> Append(g.nodes, [id |-> num, kind |-> kind]),
                       edges |-> IF x.from < 0 THEN g.edges ELSE Append(g.edges, <<x.from, num>>)]
              /\ stack' = IF kind # "split" THEN rest
                          ELSE rest \o << [t |-> x.t.r, d |-> x.d + 1, from |-> num], [t |-> x.t.l, d |-> x.d + 1, from |-> num] >>
              /\ num' = num + 1 /\ UNCHANGED <<tree, max>>
True2(a, b) == TRUE
Correct == stack = <<>> => /\ Draws(g, 0, tree, max, True2, True2) /\ Len(g.nodes) = NumDrawn(tree, max)
                           /\ Len(g.edges) = Len(g.nodes) - 1 /\ Roots(g) = {0}
=============================================================================
