------------------------------- MODULE Damage -------------------------------
(***************************************************************************)
(* Reading damaged model files.  The readers see lines, size the model by  *)
(* counting them, fill a flat form line by line, and give up (ok = FALSE)  *)
(* where a line cannot be used.  What they end with is accepted only if    *)
(* its nodes form complete trees.                                          *)
(***************************************************************************)
EXTENDS Formats

(* every node is the root of a tree or the child of exactly one split, and *)
(* leaves have no children                                                 *)
IsSplit(m, k) == m.f[k] >= 0
Uses(m, n) == Cardinality({k \in 1..Len(m.root) : m.root[k] = n}) + Cardinality({k \in 1..Len(m.l) : IsSplit(m, k) /\ m.l[k] = n})
              + Cardinality({k \in 1..Len(m.r) : IsSplit(m, k) /\ m.r[k] = n})
Splits(m) == Cardinality({k \in 1..Len(m.l) : IsSplit(m, k)})
Complete(m) == /\ Len(m.root) > 0
               /\ \A k \in 1..Len(m.l) : IsSplit(m, k) \/ (m.l[k] = -1 /\ m.r[k] = -1)
               /\ Len(m.root) + 2 * Splits(m) = Len(m.l)
               /\ \A n \in 0..(Len(m.l) - 1) : Uses(m, n) = 1

(* Text: boosters, nodes and leaves                                        *)
DtStart(lines) == LET nt == Len(SelectSeq(lines, LAMBDA x : x.e = "booster")) IN
    [m |-> Blank(nt, Len(lines) - nt), base |-> 0, count |-> 0, queue |-> <<>>, ok |-> TRUE]
DtStep(p, x) ==
    IF ~ p.ok THEN p
    ELSE IF x.e = "booster"
    THEN IF p.queue # <<>> \/ x.k > Len(p.m.root) THEN [p EXCEPT !.ok = FALSE]
         ELSE [p EXCEPT !.base = p.base + p.count, !.count = 0, !.m.root[x.k] = p.base + p.count, !.m.w[x.k] = "1"]
    ELSE LET id == p.base + p.count
             filled == [p EXCEPT !.count = @ + 1, !.m.v[id + 1] = x.x, !.m.f[id + 1] = IF x.e = "node" THEN x.f ELSE -1]
             top == p.queue[Len(p.queue)]
             linked == IF p.queue = <<>> THEN filled
                       ELSE IF top[2] = "L" THEN [filled EXCEPT !.m.l[top[1] + 1] = id, !.queue = SubSeq(@, 1, Len(@) - 1)]
                            ELSE [filled EXCEPT !.m.r[top[1] + 1] = id, !.queue = SubSeq(@, 1, Len(@) - 1)]
         IN IF x.e = "node" THEN [linked EXCEPT !.queue = @ \o << <<id, "R">>, <<id, "L">> >>] ELSE linked

(* Arrays (LightGBM): per tree its number, its number of leaves, features, *)
(* thresholds, left and right children, leaf values, and a last line       *)
DaStart(lines) ==
    LET sum == FoldSeq(LAMBDA x, acc : acc + (CASE x.e = "leaves" -> x.x [] x.e = "features" -> Len(x.x) [] OTHER -> 0), 0, lines)
    IN [m |-> Blank(Len(SelectSeq(lines, LAMBDA x : x.e = "tree")), sum), tree |-> 1, base |-> 0, ns |-> 0, nl |-> 0, ok |-> TRUE]
DaStep(p, x) ==
    LET n == Len(p.m.l)
        fits(len, from) == from + len <= n
        link(c) == IF c >= 0 THEN p.base + c ELSE p.base + p.ns + (-c) - 1
        Put(arr, from, new) == [k \in 1..n |-> IF k > from /\ k <= from + Len(new) THEN new[k - from] ELSE arr[k]]
        links(s) == [k \in 1..Len(s) |-> link(s[k])]
    IN IF ~ p.ok THEN p
       ELSE CASE x.e = "tree" -> IF x.x > Len(p.m.root) THEN [p EXCEPT !.ok = FALSE]
                                 ELSE [p EXCEPT !.tree = x.x, !.base = p.base + p.ns + p.nl, !.m.root[x.x] = p.base + p.ns + p.nl]
              [] x.e = "leaves" -> p
              [] x.e = "features" -> IF ~ fits(Len(x.x), p.base) THEN [p EXCEPT !.ok = FALSE] ELSE [p EXCEPT !.m.f = Put(@, p.base, x.x), !.ns = Len(x.x)]
              [] x.e = "thresholds" -> IF ~ fits(Len(x.x), p.base) THEN [p EXCEPT !.ok = FALSE] ELSE [p EXCEPT !.m.v = Put(@, p.base, x.x)]
              [] x.e = "left" -> IF ~ fits(Len(x.x), p.base) THEN [p EXCEPT !.ok = FALSE] ELSE [p EXCEPT !.m.l = Put(@, p.base, links(x.x))]
              [] x.e = "right" -> IF ~ fits(Len(x.x), p.base) THEN [p EXCEPT !.ok = FALSE] ELSE [p EXCEPT !.m.r = Put(@, p.base, links(x.x))]
              [] x.e = "values" -> IF ~ fits(Len(x.x), p.base + p.ns) THEN [p EXCEPT !.ok = FALSE]
                                   ELSE [p EXCEPT !.m.v = Put(@, p.base + p.ns, x.x), !.nl = Len(x.x)]
              [] x.e = "end" -> IF p.m.w = <<>> THEN [p EXCEPT !.ok = FALSE] ELSE [p EXCEPT !.m.w[p.tree] = "1"]
DaWhole(m) == \A k \in 1..Len(m.w) : m.w[k] # "0"
=============================================================================
