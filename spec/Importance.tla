------------------------------ MODULE Importance ------------------------------
(***************************************************************************)
(* Feature importance.  m is a flat model (module Scoring), X its rows and *)
(* y their labels.  Trees are visited in order; the residual of a row is   *)
(* its label minus the predictions of the trees before.  At depth d, a row *)
(* is predicted the mean residual of the rows that are with it at the node *)
(* its path has at depth d (its leaf, if the path is shorter).             *)
(***************************************************************************)
EXTENDS Scoring, FiniteSetsExt, TLC

RECURSIVE PathFlat(_, _, _)
PathFlat(m, n, row) ==
    IF m.l[n + 1] = -1 THEN <<n>>
    ELSE <<n>> \o PathFlat(m, IF Goes(row[m.f[n + 1] + 1], m.v[n + 1]) THEN m.l[n + 1] ELSE m.r[n + 1], row)
PathsOf(m, k, X) == [a \in 1..Len(X) |-> PathFlat(m, m.root[k], X[a])]

NodeAt(path, d) == IF d + 1 > Len(path) THEN path[Len(path)] ELSE path[d + 1]
MeanOf(res, A) == RDiv(RSumSeq([j \in 1..Cardinality(A) |-> res[SetToSeq(A)[j]]]), R(Cardinality(A)))
(* predictions at depth d given the paths of all rows and the residuals    *)
Level(paths, res, d) ==
    LET at == TLCEval([a \in 1..Len(paths) |-> NodeAt(paths[a], d)])
        means == TLCEval([n \in {at[a] : a \in 1..Len(at)} |->
                     LET A == SelectSeq([a \in 1..Len(at) |-> a], LAMBDA a : at[a] = n)
                     IN RDiv(RSumSeq([j \in 1..Len(A) |-> res[A[j]]]), R(Len(A)))])
    IN [a \in 1..Len(at) |-> means[at[a]]]

(* split nodes below node n of the model with their depth, level by level  *)
SplitsBelow(m, n) ==
    LET RECURSIVE go(_, _)
        go(level, d) ==
            LET s == SelectSeq(level, LAMBDA k : m.l[k + 1] # -1)
                next == FoldLeft(LAMBDA acc, k : acc \o <<m.l[k + 1], m.r[k + 1]>>, <<>>, s)
            IN IF s = <<>> THEN <<>> ELSE [j \in 1..Len(s) |-> [n |-> s[j], d |-> d]] \o go(next, d + 1)
    IN go(<<n>>, 0)
DepthOf(S) == IF S = <<>> THEN 0 ELSE S[Len(S)].d + 1

(* everything about tree k: paths, splits, predictions of every level      *)
TreeRun(m, k, X, res) ==
    LET paths == TLCEval(PathsOf(m, k, X))
        S == TLCEval(SplitsBelow(m, m.root[k]))
        D == DepthOf(S)
        L == TLCEval([d \in 0..D |-> TLCEval(Level(paths, res, d))])
    IN [paths |-> paths, splits |-> S, levels |-> L, last |-> L[D]]

RowsAt(run, e) == {a \in 1..Len(run.paths) : Len(run.paths[a]) > e.d /\ run.paths[a][e.d + 1] = e.n}

(* residuals before every tree                                             *)
Runs(m, X, y) ==
    LET RECURSIVE go(_, _)
        go(k, pred) ==
            IF k > Len(m.root) THEN <<>>
            ELSE LET res == TLCEval([a \in 1..Len(y) |-> RSub(y[a], pred[a])])
                     run == TLCEval(TreeRun(m, k, X, res))
                 IN << [run |-> run, res |-> res, pred |-> pred] >>
                    \o go(k + 1, TLCEval([a \in 1..Len(y) |-> RTrunc(RAdd(pred[a], RMul(m.w[k], run.last[a])), 120)]))
    IN go(1, [a \in 1..Len(y) |-> "0"])

(* credit of split e for the squared error: mean reduction over all rows   *)
SquareCredit(t, e, N) ==
    LET A == SetToSeq(RowsAt(t.run, e))
        sq(d, a) == LET x == RSub(t.res[a], t.run.levels[d][a]) IN RMul(x, x)
    IN RDiv(RSumSeq([j \in 1..Len(A) |-> RTrunc(RSub(sq(e.d, A[j]), sq(e.d + 1, A[j])), 120)]), R(N))
SquareCounted(t, e) == e.d = 0 \/ Cardinality(RowsAt(t.run, e)) >= 2

(* credit for another metric, a function of the predictions of all rows    *)
MetricCredit(t, e, Eval(_)) ==
    LET A == RowsAt(t.run, e)
        with(d) == [a \in 1..Len(t.res) |-> RAdd(t.pred[a], t.run.levels[IF a \in A THEN d ELSE e.d][a])]
    IN RSub(Eval(with(e.d)), Eval(with(e.d + 1)))

(* totals of a quantity over the splits on feature f                       *)
Total(m, runs, f, Credit(_, _)) ==
    RSumSeq(FoldLeft(LAMBDA acc, t : acc \o
        LET S == SelectSeq(t.run.splits, LAMBDA e : m.f[e.n + 1] = f) IN [j \in 1..Len(S) |-> Credit(t, S[j])], <<>>, runs))
Tally(m, runs, f, Counted(_, _)) ==
    FoldLeft(LAMBDA acc, t : acc + Len(SelectSeq(t.run.splits, LAMBDA e : m.f[e.n + 1] = f /\ Counted(t, e))), 0, runs)
=============================================================================
