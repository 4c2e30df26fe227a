----------------------------- MODULE ScoreCacheMC -----------------------------
(***************************************************************************)
(* The dictionary in RTEnsemble.score against the specification of caching:*)
(* one entry per dataset contents, replaced when a detailed answer is      *)
(* needed and only a plain one is there.  Two model objects, the second    *)
(* made by copying the first; three dataset objects, two of them equal.    *)
(***************************************************************************)
EXTENDS ScoreCache
CONSTANTS MaxVer, Broken, Objs
VARIABLES mod, dict, ok, ver
vars == <<mod, dict, ok, ver>>
Content(o) == IF o = 3 THEN 2 ELSE 1
None == [m |-> 0, det |-> FALSE]
Empty == [c \in {1, 2} |-> None]
Init == /\ mod = <<Fresh(1), Fresh(1)>> /\ dict = <<Empty, Empty>> /\ ver = 1
        /\ ok = TRUE
Score(k, o, det, cache) ==
    LET c == Content(o)
        e == dict[k][c]
        hit == e # None /\ (Broken \/ (det => e.det))
        got == IF hit THEN e.m ELSE mod[k].m
    IN /\ ok' = (got \in Allowed(mod[k], o, c, det) /\ (hit => CanAnswer(e, det)))
       /\ dict' = IF cache /\ ~ hit THEN [dict EXCEPT ![k][c] = [m |-> got, det |-> det]] ELSE dict
       /\ mod' = IF cache THEN [mod EXCEPT ![k] = Remember(@, o, c, det, got)] ELSE mod
       /\ UNCHANGED ver
Forget(k) == /\ mod' = [mod EXCEPT ![k] = Clear(@)] /\ dict' = [dict EXCEPT ![k] = Empty] /\ UNCHANGED <<ver, ok>>
Perturb(k) == /\ ver < MaxVer /\ ver' = ver + 1 /\ mod' = [mod EXCEPT ![k] = Change(@, ver + 1)] /\ UNCHANGED <<dict, ok>>
Copy == /\ mod' = [mod EXCEPT ![2] = CopyOf(mod[1])] /\ dict' = [dict EXCEPT ![2] = dict[1]] /\ UNCHANGED <<ver, ok>>
Truncate == /\ ver < MaxVer /\ ver' = ver + 1
            /\ mod' = [mod EXCEPT ![2] = Fresh(ver + 1)] /\ dict' = [dict EXCEPT ![2] = Empty] /\ UNCHANGED ok
Next == \/ \E k \in 1..2 : Forget(k) \/ Perturb(k) \/ \E o \in Objs, det \in BOOLEAN, cache \in BOOLEAN : Score(k, o, det, cache)
        \/ Copy \/ Truncate
AnswersAllowed == ok
=============================================================================
