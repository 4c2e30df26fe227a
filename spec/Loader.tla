------------------------------- MODULE Loader -------------------------------
(* Judging a loaded model against the forest its file describes.  Tokens   *)
(* are decimal literals; a model keeps them as binary32.                   *)
EXTENDS Formats, Rat

F(tok) == RF32(RF64(RDec(tok)))

RECURSIVE Dec(_)
Dec(t) == IF IsLeaf(t) THEN [o |-> F(t.o)] ELSE [f |-> t.f, t |-> F(t.t), l |-> Dec(t.l), r |-> Dec(t.r)]

Le(x, t) == RLe(x, t)        \* FALSE for a missing value
Lt(x, t) == RLt(x, t)
Eq(a, b) == a = b
Free(a, b) == TRUE

LOCAL Fails(name, holds) == IF holds THEN {} ELSE {name}

(* r: observation; fr: decoded forest; Left, SameT: comparison and the     *)
(* relation of stored to written thresholds                                *)
LoadVerdict(r, full, Left(_, _), SameT(_, _)) ==
    LET o == r.out IN
    IF o.st # "ok" THEN {"the model cannot be loaded"} ELSE
    LET fr == IF r.limit < 0 THEN full ELSE Prefix(full, r.limit)
        m == o.m
        okshape == RepresentsForest(m, fr, Free, Free)
    IN  Fails("number of trees or nodes", m.n_trees = Len(fr) /\ Len(m.root) = Len(fr) /\ m.n_nodes = SumNodes(fr) /\ Len(m.l) = m.n_nodes)
   \cup Fails("structure of the trees (features, children, leaves)", okshape)
   \cup Fails("leaf outputs or thresholds", okshape => RepresentsForest(m, fr, SameT, Eq))
   \cup Fails("weights of the trees", m.w = [k \in 1..Len(fr) |-> fr[k].w])
   \cup Fails("nodes of a tree are not kept together", Contiguous(m))
   \cup Fails("a row reaches a different leaf",
              \A a \in 1..Len(r.X) : \A k \in 1..Len(fr) : Len(fr) = Len(o.reach[a]) /\ o.reach[a][k] = Route(fr[k].root, r.X[a], Left).o)
=============================================================================
