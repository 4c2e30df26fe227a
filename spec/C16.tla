-------------------------------- MODULE C16 --------------------------------
(* Histories of copying, truncating and writing: st is the pool of models, *)
(* compared as a whole after every event.                                  *)
EXTENDS Scoring, ChainBase

Trunc(m, n) == LET t == Truncate(m, n) IN
    [m EXCEPT !.root = t.root, !.w = t.w, !.l = t.l, !.r = t.r, !.v = t.v, !.f = t.f]

Arr(m) == [root |-> m.root, w |-> m.w, l |-> m.l, r |-> m.r, v |-> m.v, f |-> m.f]
SameArrays(o, m) == Arr(o.m) = Arr(m) /\ o.n_trees = Len(m.root) /\ o.n_nodes = Len(m.l)
SameParams(o, m) == o.m.lr = m.lr /\ o.m.base = m.base
(* an absent base score is none at all, and adds nothing                *)
Based(m) == IF m.base = "none" THEN [m EXCEPT !.base = "0"] ELSE m
SameScores(o, m) == o.y = [a \in 1..Len(Hist.X) |-> Score(Based(m), Hist.X[a])]

Check(p, e, derived) ==
    IF e.st # "ok" THEN {"the operation fails"} ELSE
    IF Len(e.pool) # Len(p) THEN {"models are missing"} ELSE
    LET old == IF derived THEN 1..(Len(p) - 1) ELSE 1..Len(p) IN
       Fails("the copy does not hold the first trees", derived => SameArrays(e.pool[Len(p)], p[Len(p)]))
  \cup Fails("the copy has other scoring parameters", derived => SameParams(e.pool[Len(p)], p[Len(p)]))
  \cup Fails("the copy has other scores", derived => SameScores(e.pool[Len(p)], p[Len(p)]))
  \cup Fails("another model changed", \A k \in old : SameArrays(e.pool[k], p[k]) /\ SameParams(e.pool[k], p[k]) /\ SameScores(e.pool[k], p[k]))

Limit(m, n) == IF n < 0 THEN m ELSE Trunc(m, n)
Copy_ == /\ IsEvent("copy")
         /\ LET e == Ev  p == Append(st, Limit(st[e.src], e.n)) IN Judge(Check(p, e, TRUE), p)
Load_ == /\ IsEvent("load")
         /\ LET e == Ev  p == Append(st, Limit(Hist.m, e.n)) IN Judge(Check(p, e, TRUE), p)
Write_ == /\ IsEvent("write")
          /\ LET e == Ev
                 m == CASE e.what = "w" -> [st[e.src] EXCEPT !.w[e.k] = e.x]
                        [] e.what = "v" -> [st[e.src] EXCEPT !.v[e.k] = e.x]
                        [] e.what = "f" -> [st[e.src] EXCEPT !.f[e.k] = e.i]
                        [] e.what = "lr" -> [st[e.src] EXCEPT !.lr = e.x]
                        [] e.what = "base" -> [st[e.src] EXCEPT !.base = e.x]
                 p == [st EXCEPT ![e.src] = m]
             IN Judge(Check(p, e, FALSE), p)

Init == ChainInitFrom(LAMBDA h : <<h.m>>)
Next == Copy_ \/ Load_ \/ Write_
=============================================================================
