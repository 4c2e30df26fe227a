------------------------------ MODULE PlotsMC ------------------------------
(***************************************************************************)
(* Drawing a table, one series at a time, in figures that come into being  *)
(* as they are needed, and reading the pictures back by the names they     *)
(* carry: the reader recovers the table whatever the layout, and a plot    *)
(* leaves the figures of earlier plots as they were.                       *)
(***************************************************************************)
EXTENDS Plots, TLC
CONSTANTS MaxDim, MaxPlots
VARIABLES jobs, figs, at, done
vars == <<jobs, figs, at, done>>

NamesOf(d, n) == [k \in 1..n |-> <<d, k>>]
Sizes == 1..MaxDim
KindsOf == {<<k, c>> : k \in {"performance", "treewise", "contribution", "querywise", "graded", "classes"}, c \in {"models", "metrics", "datasets"}}
Kinds == {kc \in KindsOf : kc[2] \in Comparisons(kc[1])}
Used(k, d) == CASE k = "performance" -> d # "x" [] k = "contribution" -> d # "third" [] OTHER -> TRUE
(* a table in which every cell is different                                *)
Table(kc, s) ==
    LET n(d) == IF Used(kc[1], d) THEN s[d] ELSE 1 IN
    [kind |-> kc[1], compare |-> kc[2], dataset |-> NamesOf("dataset", n("dataset")), model |-> NamesOf("model", n("model")),
     third |-> NamesOf("third", n("third")), x |-> NamesOf("x", n("x")),
     v |-> [d \in 1..n("dataset") |-> [m \in 1..n("model") |-> [k \in 1..n("third") |-> [x \in 1..n("x") |-> <<d, m, k, x>>]]]]]
Tables == {Table(kc, s) : kc \in Kinds, s \in [Dims -> Sizes]}

Y(t) == Layout(t.kind, t.compare)
(* jobs: the tables plotted; figs: all figures, each [job, name, panels];  *)
(* at = <<f, p, s>>: the next series to be drawn                           *)
Init == /\ \E t \in Tables : jobs = <<t>>
        /\ figs = <<>> /\ at = <<1, 1, 1>> /\ done = 0
T == jobs[Len(jobs)]
Blank(t, f) == [job |-> Len(jobs), name |-> Names(t, Y(t).fig)[f],
                panels |-> [p \in 1..Len(Names(t, Y(t).panel)) |-> [name |-> Names(t, Y(t).panel)[p], series |-> <<>>]]]
Drawn(t, f, p, s) == [name |-> Names(t, Y(t).series)[s],
                      pts |-> {<<Names(t, Y(t).pos)[x], At(t, Y(t), f, p, s, x)>> : x \in 1..Len(Names(t, Y(t).pos))}]
Mine == SelectSeq(figs, LAMBDA g : g.job = Len(jobs))
Open == /\ done < Len(jobs) /\ Len(Mine) < at[1] /\ at[1] <= Len(Names(T, Y(T).fig))
        /\ figs' = Append(figs, Blank(T, at[1])) /\ UNCHANGED <<jobs, at, done>>
Draw == /\ done < Len(jobs) /\ Len(Mine) = at[1] /\ at[1] <= Len(Names(T, Y(T).fig))
        /\ LET f == at[1]  p == at[2]  s == at[3] IN
           /\ figs' = [figs EXCEPT ![Len(figs)].panels[p].series = Append(@, Drawn(T, f, p, s))]
           /\ at' = IF s < Len(Names(T, Y(T).series)) THEN <<f, p, s + 1>>
                    ELSE IF p < Len(Names(T, Y(T).panel)) THEN <<f, p + 1, 1>> ELSE <<f + 1, 1, 1>>
           /\ UNCHANGED <<jobs, done>>
Finish == /\ done < Len(jobs) /\ at[1] > Len(Names(T, Y(T).fig)) /\ done' = Len(jobs) /\ UNCHANGED <<jobs, figs, at>>
Again == /\ done = Len(jobs) /\ Len(jobs) < MaxPlots
         /\ \E t \in Tables : jobs' = Append(jobs, t) /\ t.kind = "treewise" /\ Len(t.x) = 1   \* one more kind is enough to disturb
         /\ at' = <<1, 1, 1>> /\ UNCHANGED <<figs, done>>
Next == Open \/ Draw \/ Finish \/ Again

(* what a reader finds in the pictures of plot j: values by four names     *)
Read(j) == UNION {UNION {UNION {{<<figs[g].name, figs[g].panels[p].name, figs[g].panels[p].series[s].name, q[1], q[2]>> :
                                   q \in figs[g].panels[p].series[s].pts}
                                : s \in 1..Len(figs[g].panels[p].series)} : p \in 1..Len(figs[g].panels)}
                  : g \in {h \in 1..Len(figs) : figs[h].job = j}}
NameAt(t, d, c) == IF d = "none" THEN "" ELSE Names(t, d)[CASE d = "dataset" -> c[1] [] d = "model" -> c[2] [] d = "third" -> c[3] [] d = "x" -> c[4]]
Cells(t) == {<<NameAt(t, Y(t).fig, c), NameAt(t, Y(t).panel, c), NameAt(t, Y(t).series, c), NameAt(t, Y(t).pos, c), c>> :
                c \in (1..Len(t.dataset)) \X (1..Len(t.model)) \X (1..Len(t.third)) \X (1..Len(t.x))}
Recovered == \A j \in 1..done : Read(j) = Cells(jobs[j])
(* every name is unique where it tells things apart                        *)
Apart == \A j \in 1..done : Cardinality({<<e[1], e[2], e[3], e[4]>> : e \in Read(j)}) = Cardinality(Read(j))
Isolated == [][\A g \in 1..Len(figs) : figs[g].job # Len(jobs) => figs'[g] = figs[g]]_vars
=============================================================================
