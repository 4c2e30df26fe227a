------------------------------- MODULE Fetcher -------------------------------
(***************************************************************************)
(* Fetching a standard dataset, as its users see it.  What the data home   *)
(* holds of each part ("d" the dataset, "m" the models) is known only up   *)
(* to a set of possibilities after a failure: 0 is nothing, v > 0 the      *)
(* complete contents the archive had when version v was published.  There  *)
(* is no possibility in between: incomplete data count as nothing.         *)
(*                                                                         *)
(* A request has dl (download_if_missing), force, models, and ver, the     *)
(* version published at the time.                                          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

Parts == {"d", "m"}
Unknown == [p \in Parts |-> {0}]
Wanted(r) == IF r.models THEN Parts ELSE {"d"}
Renews(r) == r.dl /\ r.force

(* the versions of a part that the answer may consist of                   *)
Candidates(S, r) == IF Renews(r) THEN {r.ver}
                    ELSE (S \ {0}) \cup (IF r.dl /\ 0 \in S THEN {r.ver} ELSE {})

(* with nothing going wrong                                                *)
MustFail(st, r) == \E p \in Wanted(r) : Candidates(st[p], r) = {}
MayFail(st, r)  == ~ r.dl /\ \E p \in Wanted(r) : 0 \in st[p]

(* which parts must, and which must not, be downloaded                     *)
MustDownload(st, r) == {p \in Wanted(r) : Renews(r) \/ (r.dl /\ st[p] = {0})}
NoDownload(st, r) == IF ~ r.dl THEN Parts
                     ELSE IF r.force THEN {} ELSE {p \in Wanted(r) : 0 \notin st[p]}

(* what is known after an answer made of version got[p] of each part       *)
AfterAnswer(st, r, got) ==
    [p \in Parts |-> IF p \in Wanted(r) THEN {got[p]}
                     ELSE IF Renews(r) THEN st[p] \cup {0, r.ver} ELSE st[p]]
AfterFailure(st, r) ==
    [p \in Parts |-> st[p] \cup (IF r.dl THEN {r.ver} ELSE {}) \cup (IF Renews(r) THEN {0} ELSE {})]

(* as long as at most the network failed, the disk holds the data and      *)
(* nothing besides, but for a few bytes of bookkeeping                     *)
Slack == 100
Largest(S) == CHOOSE n \in S : \A k \in S : k <= n
=============================================================================
