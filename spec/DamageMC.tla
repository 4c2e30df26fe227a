------------------------------ MODULE DamageMC ------------------------------
(* Files of every small forest, whole, cut after any line, and with any    *)
(* line missing or repeated, read line by line.  Whole files are accepted  *)
(* as what they say; a cut file is refused, or gives the trees that are    *)
(* still there; whatever is accepted is made of complete trees.            *)
EXTENDS Damage, TLC
CONSTANTS MaxTrees, MaxSplits
VARIABLES fr, fmt, dmg, lines, pos, p

RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {[o |-> "."]}
             ELSE UNION {{[l |-> a, r |-> b] : a \in Shapes(i), b \in Shapes(n - 1 - i)} : i \in 0..(n - 1)}
AllShapes == UNION {Shapes(n) : n \in 0..MaxSplits}
RECURSIVE Label(_, _)
Label(s, name) == IF "o" \in DOMAIN s THEN [o |-> "o" \o name]
                  ELSE [f |-> Len(name) % 2, t |-> "t" \o name, l |-> Label(s.l, name \o "l"), r |-> Label(s.r, name \o "r")]
Forests == UNION {{[k \in 1..n |-> [w |-> "1", root |-> Label(s[k], ToString(k))]] : s \in [1..n -> AllShapes]} : n \in 1..MaxTrees}

Text(f, k) == LET q == Preorder(f[k].root) IN <<[e |-> "booster", k |-> k]>> \o [j \in 1..Len(q) |-> TxNode(q[j])]
Array(f, k) ==
    LET t == f[k].root
        s == SelectSeq(Preorder(t), LAMBDA x : ~ IsLeaf(x))  lv == SelectSeq(Preorder(t), IsLeaf)
        num(x) == IF IsLeaf(x) THEN -(CHOOSE j \in 1..Len(lv) : lv[j] = x) ELSE (CHOOSE j \in 1..Len(s) : s[j] = x) - 1
    IN <<[e |-> "tree", x |-> k], [e |-> "leaves", x |-> Len(lv)], [e |-> "features", x |-> [j \in 1..Len(s) |-> s[j].f]],
         [e |-> "thresholds", x |-> [j \in 1..Len(s) |-> s[j].t]], [e |-> "left", x |-> [j \in 1..Len(s) |-> num(s[j].l)]],
         [e |-> "right", x |-> [j \in 1..Len(s) |-> num(s[j].r)]], [e |-> "values", x |-> [j \in 1..Len(lv) |-> lv[j].o]], [e |-> "end"]>>
Of(f, k) == IF fmt = "text" THEN Text(f, k) ELSE Array(f, k)
RECURSIVE File(_, _)
File(f, n) == IF n = 0 THEN <<>> ELSE File(f, n - 1) \o Of(f, n)

Damaged(s, d) == CASE d[1] = "whole" -> s
                   [] d[1] = "cut" -> SubSeq(s, 1, d[2])
                   [] d[1] = "drop" -> SubSeq(s, 1, d[2] - 1) \o SubSeq(s, d[2] + 1, Len(s))
                   [] d[1] = "twice" -> SubSeq(s, 1, d[2]) \o SubSeq(s, d[2], Len(s))
Start(s) == IF fmt = "text" THEN DtStart(s) ELSE DaStart(s)
Init == /\ fr \in Forests /\ fmt \in {"text", "arrays"} /\ pos = 1
        /\ LET s == File(fr, Len(fr)) IN
           \/ dmg = <<"whole", 0>>
           \/ \E n \in 0..(Len(s) - 1) : dmg = <<"cut", n>>
           \/ \E n \in 1..Len(s) : dmg \in {<<"drop", n>>, <<"twice", n>>}
        /\ lines = Damaged(File(fr, Len(fr)), dmg)
        /\ p = Start(lines)
Next == /\ pos <= Len(lines) /\ pos' = pos + 1
        /\ p' = IF fmt = "text" THEN DtStep(p, lines[pos]) ELSE DaStep(p, lines[pos])
        /\ UNCHANGED <<fr, fmt, dmg, lines>>

Accepted == pos > Len(lines) /\ p.ok /\ Complete(p.m) /\ (fmt = "arrays" => DaWhole(p.m))
Eq(a, b) == a = b
Is(f) == RepresentsForest(p.m, f, Eq, Eq) /\ p.m.w = [k \in 1..Len(f) |-> "1"]
Intact == pos > Len(lines) /\ dmg[1] = "whole" => Accepted /\ Is(fr)
(* the trees whose lines are all there                                     *)
There == CHOOSE n \in 0..Len(fr) : Len(File(fr, n)) <= dmg[2] /\ (n < Len(fr) => Len(File(fr, n + 1)) > dmg[2])
CutFile == Accepted /\ dmg[1] = "cut" => There > 0 /\ Is(Prefix(fr, There))
Safe == Accepted => Sound(p.m) /\ Contiguous(p.m) /\ \A k \in 1..Len(p.m.root) : p.m.root[k] >= 0
=============================================================================
