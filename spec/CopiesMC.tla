------------------------------ MODULE CopiesMC ------------------------------
(***************************************************************************)
(* Things with a value and a memory of the answer they gave.  A thing can  *)
(* be copied with its memory; a thing that is changed forgets.  Every      *)
(* answer is the one of the thing's own value.                             *)
(* Sharing: copies use the same memory.  Bound: a copy goes on to ask the  *)
(* thing it was made of.  Numbered: memories are kept by numbers that are  *)
(* given again once their thing is gone.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Values, Cells, Sharing, Bound, Numbered
VARIABLES things, memory, said
(* things: cell -> [v, mem, of]; of: the cell that is asked                *)
None == [v |-> 0, mem |-> 0, of |-> 0]
Init == /\ \E v \in Values : things = [c \in Cells |-> IF c = 1 THEN [v |-> v, mem |-> 1, of |-> 1] ELSE None]
        /\ memory = [c \in Cells |-> 0] /\ said = [got |-> 0, want |-> 0]
Alive(c) == things[c].v # 0
Ask(c) == /\ Alive(c) /\ Alive(things[c].of)
          /\ LET n == things[c].mem
                 a == IF memory[n] # 0 THEN memory[n] ELSE things[things[c].of].v
             IN memory' = [memory EXCEPT ![n] = a] /\ said' = [got |-> a, want |-> things[c].v]
          /\ UNCHANGED things
Copy(c, d) == /\ Alive(c) /\ ~ Alive(d)
              /\ things' = [things EXCEPT ![d] = [v |-> things[c].v, mem |-> IF Sharing THEN things[c].mem ELSE d, of |-> IF Bound THEN things[c].of ELSE d]]
              /\ memory' = IF Sharing THEN memory ELSE [memory EXCEPT ![d] = memory[things[c].mem]]
              /\ UNCHANGED said
Change(c, v) == /\ Alive(c) /\ v # things[c].v
                /\ things' = [things EXCEPT ![c].v = v]
                /\ memory' = [memory EXCEPT ![things[c].mem] = 0] /\ UNCHANGED said
Make(c, v) == /\ ~ Alive(c)
              /\ things' = [things EXCEPT ![c] = [v |-> v, mem |-> c, of |-> c]]
              /\ memory' = IF Numbered THEN memory ELSE [memory EXCEPT ![c] = 0]
              /\ UNCHANGED said
Drop(c) == /\ Alive(c) /\ \E d \in Cells : d # c /\ Alive(d)
           /\ \A d \in Cells \ {c} : Alive(d) => things[d].of # c
           /\ things' = [things EXCEPT ![c] = None] /\ UNCHANGED <<memory, said>>
Next == \E c \in Cells : Ask(c) \/ Drop(c) \/ (\E d \in Cells : Copy(c, d)) \/ (\E v \in Values : Change(c, v) \/ Make(c, v))
Own == said.got = said.want
=============================================================================
