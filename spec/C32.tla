-------------------------------- MODULE C32 --------------------------------
(* Histories of plots.  The state is what every figure made so far shows.  *)
EXTENDS Plots, Scoring, ChainBase, FiniteSetsExt

Same(a, b, rel) == IF b = "nan" \/ a = "nan" THEN a = b ELSE RClose(a, b, rel, "1/1000000")
Only(seq, name) == seq = <<name>>

-----------------------------------------------------------------------------
Scale(e, v) == IF e.kind = "querywise" /\ RFin(v) THEN RMul("100", v) ELSE v
Draws(e, y, f, p, s, got) ==
    LET ns == Names(e, y.pos) IN
    /\ Len(got.pts) = Len(ns)
    /\ \A x \in 1..Len(ns) : \E k \in 1..Len(ns) : got.pts[k][1] = ns[x] /\ Same(got.pts[k][2], Scale(e, At(e, y, f, p, s, x)), "1/1000000")
Best(e, y, f, p, s) ==
    LET vs == SelectSeq([x \in 1..Len(Names(e, y.pos)) |-> At(e, y, f, p, s, x)], RFin)
    IN IF vs = <<>> THEN "nan" ELSE FoldLeft(LAMBDA a, b : RMax(a, b), vs[1], vs)
Marked(e, y, f, p, marks) ==
    LET S == {s \in 1..Len(Names(e, y.series)) : Best(e, y, f, p, s) # "nan"} IN
    /\ Len(marks) = Cardinality(S)
    /\ \A s \in S : \E k \in 1..Len(marks), x \in 1..Len(e.x) :
          marks[k][1] = e.x[x] /\ marks[k][2] = Best(e, y, f, p, s) /\ At(e, y, f, p, s, x) = marks[k][2]
Noted(e, y, f, p, notes) ==
    IF ~ e.show THEN TRUE
    ELSE LET ns == Names(e, y.series)  xs == Names(e, y.pos) IN
         /\ Len(notes) = Len(ns) * Len(xs)
         /\ \A s \in 1..Len(ns), x \in 1..Len(xs) : \E k \in 1..Len(notes) :
                /\ notes[k][1] = ns[s] /\ notes[k][2] = xs[x]
                /\ LET v == At(e, y, f, p, s, x) IN
                   IF v = "nan" THEN notes[k][3] = "nan" ELSE RFin(notes[k][3]) /\ RLe(RAbs(RSub(notes[k][3], v)), "6/10000")
PanelOf(e, y, f, p, g) ==
    LET ns == Names(e, y.series) IN
    Fails("the panel does not say what it shows",
          y.panel = "none" \/ Only(g.own[y.panel], Names(e, y.panel)[p]))
    \cup Fails("one series each", Len(g.series) = Len(ns) /\ (y.series = "none" \/ {g.series[k].name : k \in 1..Len(ns)} = ToSet(ns)))
    \cup Fails("the values drawn", \A s \in 1..Len(ns) : \E k \in 1..Len(g.series) :
                   (y.series = "none" \/ g.series[k].name = ns[s]) /\ Draws(e, y, f, p, s, g.series[k]))
    \cup Fails("the maximum is marked", e.kind # "treewise" \/ Marked(e, y, f, p, g.marks))
    \cup Fails("the values written", Noted(e, y, f, p, g.notes))
    \cup Fails("values outside the picture", g.visible)

(* the darker, the more pairs; which axis is which is what the labels say  *)
MatrixOf(e, y, f, p, g) ==
    LET n == Len(e.third)
        cell(k) == IF g.y = "Label i" THEN At(e, y, f, p, g.cells[k][2], g.cells[k][1]) ELSE At(e, y, f, p, g.cells[k][1], g.cells[k][2])
        less(a, b) == IF a = "-inf" THEN b # "-inf" ELSE b # "-inf" /\ RLt(a, b)
    IN IF {g.x, g.y} # {"Label i", "Label j"} \/ Len(g.cells) # n * n THEN {"one cell for each pair of labels"}
       ELSE Fails("the panel does not say what it shows", Only(g.says.model, e.model[p]))
            \cup Fails("colours in the order of the counts", \A a, b \in 1..(n * n) :
                       (RLt(cell(a), cell(b))) = less(g.cells[a][3], g.cells[b][3]))
FigureOf(e, y, f, g) ==
    LET np == Len(Names(e, y.panel)) IN
    Fails("the figure does not say what it shows", Only(g.says[y.fig], Names(e, y.fig)[f]))
    \cup IF Len(g.panels) # np THEN {"one panel each"}
         ELSE UNION {IF e.kind = "confusion" THEN MatrixOf(e, y, f, p, g.panels[p]) ELSE PanelOf(e, y, f, p, g.panels[p]) : p \in 1..np}

Plot(e) ==
    IF e.compare \notin Comparisons(e.kind) THEN Fails("an unknown comparison is drawn", e.st = "exc")
    ELSE IF e.st # "ok" THEN {"the plot fails"}
    ELSE LET y == Layout(e.kind, e.compare)  n == Len(Names(e, y.fig)) IN
         IF Len(e.figs) # n THEN {"one figure each"} ELSE UNION {FigureOf(e, y, f, e.figs[f]) : f \in 1..n}

-----------------------------------------------------------------------------
(* the most important features, in order                                   *)
Importance(e) ==
    IF e.by \notin {"gain", "count"} THEN Fails("an unknown order is drawn", e.st = "exc")
    ELSE IF e.st # "ok" THEN {"the plot fails"}
    ELSE LET n == Len(e.imp)  k == IF e.top < n THEN e.top ELSE n
             key == IF e.by = "gain" THEN e.imp ELSE e.cnt
             of(name) == CHOOSE j \in 1..n : e.names[j] = name
             shown == [j \in 1..Len(e.imps) |-> e.imps[j][1]]
         IN IF Len(e.imps) # k \/ Len(e.cnts) # k \/ Cardinality(ToSet(shown)) # k \/ ~ ToSet(shown) \subseteq ToSet(e.names)
               \/ {e.cnts[j][1] : j \in 1..k} # ToSet(shown)
            THEN {"one pair of bars for each of the first features"}
            ELSE Fails("the importance of a feature", \A j \in 1..k : e.imps[j][2] = e.imp[of(shown[j])])
                 \cup Fails("the count of a feature", \A j \in 1..k : e.cnts[j][2] = e.cnt[of(e.cnts[j][1])])
                 \cup Fails("in decreasing order", \A j \in 1..(k - 1) : RLe(key[of(shown[j + 1])], key[of(shown[j])]))
                 \cup Fails("the first features", \A j \in 1..n : e.names[j] \in ToSet(shown) \/ \A h \in 1..k : RLe(key[j], key[of(shown[h])]))
                 \cup Fails("the legend", e.legend = <<"Importance", "Count">>)
                 \cup Fails("values outside the picture", e.visible)

-----------------------------------------------------------------------------
(* the share of the trees that have a node at each place                   *)
RECURSIVE PlacesFlat(_, _, _, _)
PlacesFlat(m, n, row, col) ==
    {<<row, col>>} \cup IF m.l[n + 1] = -1 THEN {}
                        ELSE PlacesFlat(m, m.l[n + 1], row + 1, 2 * col) \cup PlacesFlat(m, m.r[n + 1], row + 1, 2 * col + 1)
Shape(e) ==
    IF e.st # "ok" THEN {"the plot fails"}
    ELSE LET n == Len(e.m.root)
             per == TLCEval([k \in 1..n |-> PlacesFlat(e.m, e.m.root[k], 0, 0)])
             all == UNION {per[k] : k \in 1..n}
             depth == Max({p[1] : p \in all})
             last == IF depth < e.top THEN depth ELSE e.top
             share(p) == RDiv(R(Cardinality({k \in 1..n : p \in per[k]})), R(n))
             want == {p \in all : p[1] <= last}
         IN Fails("levels", e.levels = last + 1 /\ ToSet(e.circles) = 1..(last + 1))
            \cup Fails("frequency of the nodes", Len(e.cells) = Cardinality(want)
                       /\ \A p \in want : \E k \in 1..Len(e.cells) : e.cells[k][1] = p[1] /\ e.cells[k][2] = R(p[2])
                                                                    /\ RClose(e.cells[k][3], share(p), "1/1000000", "1"))
            \cup Fails("the colour scale", e.scale = <<"0", "1">>)
            \cup Fails("the figure does not say what it shows", e.title)

-----------------------------------------------------------------------------
Init == ChainInit(<<>>)
Others(e) == Fails("a plot changes figures made before", e.fresh /\ e.earlier = st)
             \cup Fails("a plot changes its table", e.kept)
Next == \/ IsEvent("style") /\ Judge(Fails("the style cannot be set", Ev.st = "ok"), st)
        \/ IsEvent("plot") /\ Judge(Plot(Ev) \cup Others(Ev), st \o Ev.new)
        \/ IsEvent("importance") /\ Judge(Importance(Ev) \cup Others(Ev), st \o Ev.new)
        \/ IsEvent("shape") /\ Judge(Shape(Ev) \cup Others(Ev), st \o Ev.new)
=============================================================================
