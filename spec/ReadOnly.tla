------------------------------ MODULE ReadOnly ------------------------------
(***************************************************************************)
(* Questions about models, datasets and metrics.  A question has an answer *)
(* that only depends on what the things it is about hold; asking it leaves *)
(* all things, and all answers given before, as they are.                  *)
(***************************************************************************)
EXTENDS Rat, Sequences

Same(a, b) == IF {a, b} \cap {"nan", "inf", "-inf"} # {} THEN a = b ELSE RClose(a, b, "1/100000", "1/100000000")
SameAnswer(a, b) ==
    /\ a.st = b.st /\ Len(a.says) = Len(b.says)
    /\ \A k \in 1..Len(a.says) :
          /\ a.says[k].text = b.says[k].text
          /\ Len(a.says[k].v) = Len(b.says[k].v)
          /\ \A j \in 1..Len(a.says[k].v) : Same(a.says[k].v[j], b.says[k].v[j])
=============================================================================
