-------------------------------- MODULE C07 --------------------------------
(* Histories of subsets: st is the pool of datasets (the root and what was *)
(* derived from it, in order); after every event the real contents of the  *)
(* whole pool are compared with it.                                        *)
EXTENDS Data, ChainBase

Check(pool, e) ==
    IF e.st # "ok" THEN {"the call fails"} ELSE
       Fails("a derived dataset has the wrong rows, columns or queries",
             Len(e.pool) = Len(pool) /\ e.pool[Len(pool)] = pool[Len(pool)])
  \cup Fails("another dataset changed",
             \A k \in 1..(Len(pool) - 1) : k <= Len(e.pool) => e.pool[k] = pool[k])
  \cup Fails("its query structure is wrong", e.ids = [k \in 1..Len(pool) |-> View(pool[k].q).ids])

Queries_ == /\ IsEvent("subset")
            /\ LET e == Ev  p == Append(st, Subset(st[e.src], Range(e.arg))) IN Judge(Check(p, e), p)
Features_ == /\ IsEvent("features")
             /\ LET e == Ev  p == Append(st, SubsetFeatures(st[e.src], e.arg)) IN Judge(Check(p, e), p)
(* the program writes into a feature subset                                *)
Write_ == /\ IsEvent("write")
          /\ LET e == Ev  p == [st EXCEPT ![e.src] = SetCell(@, e.r, e.c, e.v)] IN
             Judge(Fails("writing into a feature subset shows in another dataset",
                         \A k \in 1..Len(p) : e.pool[k] = p[k]), p)

Init == ChainInitFrom(LAMBDA h : <<h.ds>>)
Next == Queries_ \/ Features_ \/ Write_
=============================================================================
