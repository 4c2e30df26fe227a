------------------------------ MODULE MemoryMC ------------------------------
(***************************************************************************)
(* Blocks of memory that are made by the native loader, referred to by an  *)
(* owner object each, which the arrays and their views refer to and count. *)
(* A loader whose arrays do not refer to the owner (NoBase) hands out      *)
(* memory that is given back while it is held; one that forgets a          *)
(* reference (NoRelease), or the block of a file that turns out to be      *)
(* wrong (Forget), keeps memory that nobody holds.                         *)
(***************************************************************************)
EXTENDS Memory, Sequences
CONSTANTS MaxBlocks, MaxArrays, NoBase, NoRelease, Forget
VARIABLES blocks, count, arrays, held
vars == <<blocks, count, arrays, held>>
(* blocks: those allocated and not freed; count[b]: references to the      *)
(* owner of b; arrays: identity -> block                                   *)
Init == blocks = {} /\ count = <<>> /\ arrays = Nothing /\ held = Nothing
Alive == DOMAIN arrays
Fresh == CHOOSE a \in 1..MaxArrays : a \notin Alive
New == Len(count) + 1
Load == /\ New <= MaxBlocks /\ Cardinality(Alive) < MaxArrays
        /\ count' = Append(count, IF NoBase THEN 0 ELSE 1)
        /\ blocks' = IF NoBase THEN blocks ELSE blocks \cup {New}
        /\ arrays' = Take(arrays, Fresh, New) /\ held' = Take(held, Fresh, 1)
Wrong == /\ New <= MaxBlocks /\ count' = Append(count, 0)
         /\ blocks' = (IF Forget THEN blocks \cup {New} ELSE blocks) /\ UNCHANGED <<arrays, held>>
View(a) == /\ Cardinality(Alive) < MaxArrays
           /\ count' = [count EXCEPT ![arrays[a]] = @ + (IF NoBase THEN 0 ELSE 1)]
           /\ arrays' = Take(arrays, Fresh, arrays[a]) /\ held' = Take(held, Fresh, 1) /\ UNCHANGED blocks
Drop(a) == LET b == arrays[a]  c == count[b] - 1 IN
           /\ count' = [count EXCEPT ![b] = IF NoBase THEN 0 ELSE c]
           /\ blocks' = IF c <= 0 /\ ~ NoRelease THEN blocks \ {b} ELSE blocks
           /\ arrays' = Leave(arrays, {a}) /\ held' = Leave(held, {a})
Next == Load \/ Wrong \/ \E a \in Alive : View(a) \/ Drop(a)
Safe == \A a \in Alive : arrays[a] \in blocks
Tight == Cardinality(blocks) <= Most(held, 0)
Exact == \A b \in blocks : \E a \in Alive : arrays[a] = b
=============================================================================
