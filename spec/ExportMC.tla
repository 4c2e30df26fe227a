------------------------------ MODULE ExportMC ------------------------------
(* Every tree of up to MaxSplits splits with its nodes numbered in every   *)
(* order (the root first), written line by line and read back: the reader  *)
(* ends with the arrays it was written from.                               *)
EXTENDS Export, TLC
CONSTANT MaxSplits
VARIABLES a, w, p, pos

RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {[o |-> "."]}
             ELSE UNION {{[l |-> x, r |-> y] : x \in Shapes(k), y \in Shapes(n - 1 - k)} : k \in 0..(n - 1)}

(* the arrays of a shape with its nodes (paths) numbered by num            *)
RECURSIVE Paths(_, _)
Paths(s, at) == IF "o" \in DOMAIN s THEN {at} ELSE {at} \cup Paths(s.l, at \o "l") \cup Paths(s.r, at \o "r")
RECURSIVE Sub(_, _, _)
Sub(s, at, path) == IF at = path THEN s
                    ELSE IF path \in Paths(s.l, at \o "l") THEN Sub(s.l, at \o "l", path) ELSE Sub(s.r, at \o "r", path)
Arrays(s) ==
    LET P == Paths(s, ".")  n == Cardinality(P) IN
    {LET path(k) == CHOOSE q \in P : num[q] = k
         leaf(k) == "o" \in DOMAIN Sub(s, ".", path(k))
     IN [l |-> [k \in 1..n |-> IF leaf(k - 1) THEN -1 ELSE num[path(k - 1) \o "l"]],
         r |-> [k \in 1..n |-> IF leaf(k - 1) THEN -1 ELSE num[path(k - 1) \o "r"]],
         f |-> [k \in 1..n |-> IF leaf(k - 1) THEN -2 ELSE Len(path(k - 1)) % 2],
         t |-> [k \in 1..n |-> "t" \o path(k - 1)], v |-> [k \in 1..n |-> "o" \o path(k - 1)]]
     : num \in {g \in [P -> 0..(n - 1)] : g["."] = 0 /\ \A x, y \in P : g[x] = g[y] => x = y}}

Init == /\ a \in UNION {Arrays(s) : s \in UNION {Shapes(n) : n \in 0..MaxSplits}}
        /\ w = WrStart /\ pos = 1 /\ p = RdStart(Len(a.l))
Write == w.stack # <<>> /\ w' = WrStep(w, a) /\ UNCHANGED <<a, p, pos>>
Read == w.stack = <<>> /\ pos <= Len(w.lines) /\ p' = RdStep(p, w.lines[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<a, w>>
Next == Write \/ Read
Eq(x, y) == x = y
Done == w.stack = <<>> /\ pos > Len(w.lines)
OncePerNode == w.stack = <<>> => Len(w.lines) = Len(a.l) /\ {w.lines[k].id : k \in 1..Len(w.lines)} = 0..(Len(a.l) - 1)
RoundTrip == Done => /\ p.queue = <<>> /\ p.m.l = a.l /\ p.m.r = a.r
                     /\ RepresentsForest(p.m, <<[w |-> "1", root |-> SkTree(a)]>>, Eq, Eq) /\ Contiguous(p.m)
=============================================================================
