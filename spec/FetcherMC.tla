------------------------------ MODULE FetcherMC ------------------------------
(***************************************************************************)
(* The steps of datasets_fetcher.py on the data home against Fetcher, for  *)
(* every sequence of requests, failing or dying before any step.  dir[p]   *)
(* is the folder of a part and tmp[p] its ".partial" sibling: 0 absent, -1 *)
(* something incomplete, v > 0 complete.  InPlace is the design without    *)
(* the work folder, Litter the one that does not remove it; neither        *)
(* satisfies the specification.  rude: a call died or a step failed.       *)
(***************************************************************************)
EXTENDS Fetcher, Sequences
CONSTANTS MaxVer, MaxCalls, InPlace, Litter
VARIABLES dir, tmp, st, pub, req, todo, calls, ok, rude
vars == <<dir, tmp, st, pub, req, todo, calls, ok, rude>>
None == [dl |-> FALSE, force |-> FALSE, models |-> FALSE, ver |-> 0]
Init == /\ dir = [p \in Parts |-> 0] /\ tmp = [p \in Parts |-> 0] /\ st = Unknown
        /\ pub = 1 /\ req = None /\ todo = <<>> /\ calls = 0 /\ ok = TRUE /\ rude = FALSE
Idle == todo = <<>>
Publish == Idle /\ pub < MaxVer /\ pub' = pub + 1 /\ UNCHANGED <<dir, tmp, st, req, todo, calls, ok, rude>>

S(a, p) == <<a, p>>
RmTmp(p) == IF Litter THEN <<S("skip", p)>> ELSE <<S("rmtmp", p)>>
Removal(p)  == IF InPlace THEN <<S("rmdir", p)>> ELSE <<S("away", p)>> \o RmTmp(p)
Download(p) == IF InPlace THEN <<S("missing?", p), S("mkdir", p), S("extract", p)>>
               ELSE <<S("missing?", p), S("mktmp", p), S("extract", p), S("publish", p)>> \o RmTmp(p)
Plan(r) == (IF r.dl THEN <<>> ELSE <<S("there?", "d")>> \o (IF r.models THEN <<S("there?", "m")>> ELSE <<>>))
           \o (IF Renews(r) THEN Removal("d") \o Removal("m") ELSE <<>>)
           \o Download("d") \o (IF r.models THEN Download("m") ELSE <<>>) \o <<S("answer", "d")>>
Call == /\ Idle /\ calls < MaxCalls /\ calls' = calls + 1
        /\ \E dl \in BOOLEAN, f \in BOOLEAN, m \in BOOLEAN :
              LET r == [dl |-> dl, force |-> f, models |-> m, ver |-> pub] IN req' = r /\ todo' = Plan(r)
        /\ UNCHANGED <<dir, tmp, st, pub, ok, rude>>

Fail == todo' = <<>> /\ st' = AfterFailure(st, req)
(* the call dies or an operation fails; a removal or an extraction may have got half way *)
Break == /\ todo # <<>> /\ Fail /\ rude' = TRUE /\ UNCHANGED <<pub, req, calls, ok>>
         /\ LET a == Head(todo)[1]  p == Head(todo)[2] IN
            \/ UNCHANGED <<dir, tmp>>
            \/ a = "rmdir" /\ dir[p] # 0 /\ dir' = [dir EXCEPT ![p] = -1] /\ UNCHANGED tmp
            \/ a = "rmtmp" /\ tmp[p] # 0 /\ tmp' = [tmp EXCEPT ![p] = -1] /\ UNCHANGED dir
            \/ a = "extract" /\ InPlace /\ dir' = [dir EXCEPT ![p] = -1] /\ UNCHANGED tmp
            \/ a = "extract" /\ ~ InPlace /\ tmp' = [tmp EXCEPT ![p] = -1] /\ UNCHANGED dir
(* the network fails: the call ends in order                               *)
Refuse == /\ todo # <<>> /\ ~ InPlace /\ Head(todo)[1] = "extract"
          /\ todo' = RmTmp(Head(todo)[2]) \o <<S("fail", "d")>> /\ UNCHANGED <<dir, tmp, st, pub, req, calls, ok, rude>>
Past(n) == SubSeq(todo, n + 1, Len(todo))
Step == /\ todo # <<>> /\ UNCHANGED <<pub, req, calls, rude>>
        /\ LET a == Head(todo)[1]  p == Head(todo)[2]  go == todo' = Past(1) /\ UNCHANGED <<st, ok>> IN
           CASE a = "fail" -> Fail /\ UNCHANGED <<dir, tmp, ok>>
             [] a = "skip" -> go /\ UNCHANGED <<dir, tmp>>
             [] a = "there?" /\ dir[p] # 0 -> go /\ UNCHANGED <<dir, tmp>>
             [] a = "there?" -> Fail /\ ok' = (ok /\ MayFail(st, req)) /\ UNCHANGED <<dir, tmp>>
             [] a = "rmdir" -> go /\ dir' = [dir EXCEPT ![p] = 0] /\ UNCHANGED tmp
             [] a = "rmtmp" -> go /\ tmp' = [tmp EXCEPT ![p] = 0] /\ UNCHANGED dir
             [] a = "away" -> go /\ dir' = [dir EXCEPT ![p] = 0] /\ tmp' = [tmp EXCEPT ![p] = dir[p]]
             [] a = "missing?" /\ dir[p] # 0 -> /\ todo' = Past(IF InPlace THEN 3 ELSE 5)
                                                /\ ok' = (ok /\ p \notin MustDownload(st, req))
                                                /\ UNCHANGED <<dir, tmp, st>>
             [] a = "missing?" -> /\ todo' = Past(1) /\ ok' = (ok /\ p \notin NoDownload(st, req))
                                  /\ UNCHANGED <<dir, tmp, st>>
             [] a = "mkdir" -> go /\ dir' = [dir EXCEPT ![p] = -1] /\ UNCHANGED tmp
             [] a = "mktmp" -> go /\ tmp' = [tmp EXCEPT ![p] = -1] /\ UNCHANGED dir
             [] a = "extract" /\ InPlace -> go /\ dir' = [dir EXCEPT ![p] = req.ver] /\ UNCHANGED tmp
             [] a = "extract" -> go /\ tmp' = [tmp EXCEPT ![p] = req.ver] /\ UNCHANGED dir
             [] a = "publish" -> go /\ dir' = [dir EXCEPT ![p] = tmp[p]] /\ tmp' = [tmp EXCEPT ![p] = 0]
             [] a = "answer" -> /\ todo' = <<>> /\ UNCHANGED <<dir, tmp>>
                                /\ ok' = (ok /\ ~ MustFail(st, req) /\ \A q \in Wanted(req) : dir[q] \in Candidates(st[q], req))
                                /\ st' = AfterAnswer(st, req, dir)
Next == Publish \/ Call \/ Break \/ Refuse \/ Step
(* every answer, refusal and download is one the specification allows      *)
Allowed == ok
(* and what is on disk is among the possibilities, nothing incomplete      *)
Known == Idle => \A p \in Parts : dir[p] \in st[p]
Complete == \A p \in Parts : dir[p] >= 0
Tidy == Idle /\ ~ rude => \A p \in Parts : tmp[p] = 0
=============================================================================
