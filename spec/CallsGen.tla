------------------------------ MODULE CallsGen ------------------------------
(* Ways to write calls of every operation, with the meaning of each.       *)
EXTENDS Calls, TLC, Json, IOUtils
Others(s) == {{}, Optional(s)} \cup {{j, k} : j, k \in IF Len(s) <= 8 THEN Optional(s) ELSE {}} \cup {{j, k} : j \in Optional(s), k \in IF Len(s) <= 8 THEN {} ELSE {5}} \cup {{j} : j \in Optional(s)}
Case(f, others, w) ==
    LET s == Signatures[f]
        m == Meaning(s, others)
        P(j) == [n |-> s[j].n, v |-> m[j]] IN
    [f |-> f, pos |-> [j \in 1..w.k |-> P(j)], kw |-> [x \in 1..Len(w.kw) |-> P(w.kw[x])], all |-> [j \in 1..Len(s) |-> P(j)]]
Cases == UNION {UNION {{Case(f, o, w) : w \in Writings(Signatures[f], o, TRUE)} : o \in Others(Signatures[f])} : f \in DOMAIN Signatures}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
