-------------------------------- MODULE C15 --------------------------------
(* Histories of scoring calls on a pool of models.  st is the sequence of  *)
(* model objects; dataset object o has contents Hist.con[o], the rows      *)
(* Hist.rows[c].                                                           *)
EXTENDS Scoring, ScoreCache, ChainBase, SequencesExt

Trunc(m, n) == [m EXCEPT !.root = Truncate(m, n).root, !.w = Truncate(m, n).w, !.l = Truncate(m, n).l,
                         !.r = Truncate(m, n).r, !.v = Truncate(m, n).v, !.f = Truncate(m, n).f]

(* the answer out is the one of model m on rows X                          *)
Is(out, m, X, det) ==
    LET ts == [a \in 1..Len(X) |-> Terms(m, X[a])] IN
    /\ out.y = [a \in 1..Len(X) |-> ScoreOf(m, ts[a])]
    /\ det => /\ out.part = [a \in 1..Len(X) |-> Parts(m, ts[a])]
              /\ out.leaves = [a \in 1..Len(X) |-> [k \in 1..Len(m.root) |-> LeafAt(m, k, X[a])]]

Score_ ==
    /\ IsEvent("score")
    /\ LET e == Ev
           c == Hist.con[e.obj]
           X == Hist.rows[c]
           mo == st[e.src]
           ok == {m \in Allowed(mo, e.obj, c, e.det) : Is(e.out, m, X, e.det)}
       IN IF Hist.bad[e.obj]      \* a dataset that cannot be scored: an error, or the right answer
          THEN Judge(Fails("a failed scoring is answered", e.out.st = "ok" => Is(e.out, mo.m, X, e.det)), st)
          ELSE IF e.out.st # "ok" THEN Judge({"scoring fails"}, st)
          ELSE IF ok # {}
          THEN LET ans == CHOOSE m \in ok : TRUE IN
               Judge({}, IF e.cache THEN [st EXCEPT ![e.src] = Remember(@, e.obj, c, e.det, ans)] ELSE st)
          ELSE Judge({IF Own(mo, e.obj, e.det) # {} /\ Is(e.out, mo.m, X, e.det) THEN "a cached answer is scored again"
                      ELSE "the answer is not the score of the model on that dataset"}, st)
Clear_ == /\ IsEvent("clear")
          /\ LET e == Ev IN Judge({}, [st EXCEPT ![e.src] = Clear(@)])
Perturb_ == /\ IsEvent("weight")
            /\ LET e == Ev IN Judge({}, [st EXCEPT ![e.src] = Change(@, [@.m EXCEPT !.w[e.k] = e.w])])
Copy_ == /\ IsEvent("copy")
         /\ LET e == Ev  s == st[e.src] IN
            Judge(Fails("copying fails", e.st = "ok"),
                  Append(st, IF e.n < 0 \/ e.n >= Len(s.m.root) THEN CopyOf(s) ELSE Fresh(Trunc(s.m, e.n))))

Init == ChainInitFrom(LAMBDA h : <<Fresh(h.m)>>)
Next == Score_ \/ Clear_ \/ Perturb_ \/ Copy_
=============================================================================
