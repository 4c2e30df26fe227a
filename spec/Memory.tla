------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* What is held, and the memory it takes.  held gives for everything that  *)
(* a program holds (arrays, datasets, models, metrics) the kilobytes it    *)
(* may refer to.  What is held can be read; what nobody holds takes no     *)
(* memory, whatever was done with it before.                               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
Nothing == [k \in {} |-> 0]
Take(held, id, size) == (id :> size) @@ held
Leave(held, ids) == [k \in (DOMAIN held) \ ids |-> held[k]]
RECURSIVE Total(_, _)
Total(held, ids) == IF ids = {} THEN 0 ELSE LET k == CHOOSE k \in ids : TRUE IN held[k] + Total(held, ids \ {k})
(* arrays that grow while a file is read may have room for twice as much   *)
Most(held, slack) == slack + 2 * Total(held, DOMAIN held)
=============================================================================
