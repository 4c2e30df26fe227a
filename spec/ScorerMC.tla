------------------------------ MODULE ScorerMC ------------------------------
(***************************************************************************)
(* A scorer that remembers: plain scores, and the decomposition with the   *)
(* scores it adds up to.  The model may change between questions (its      *)
(* version grows); the answers of one scorer never mix a decomposition     *)
(* with scores of another version, and nothing is computed twice but the   *)
(* scores when a decomposition is asked for later.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT MaxVersion, MaxSteps
VARIABLES ver, y, p, ans, plain, deep, steps
vars == <<ver, y, p, ans, plain, deep, steps>>
None == 0
Init == ver = 1 /\ y = None /\ p = None /\ ans = <<"none", None>> /\ plain = 0 /\ deep = 0 /\ steps = 0
Step == steps < MaxSteps /\ steps' = steps + 1
Write == Step /\ ver < MaxVersion /\ ver' = ver + 1 /\ ans' = <<"none", None>> /\ UNCHANGED <<y, p, plain, deep>>
AskScores == /\ Step
             /\ IF y = None THEN y' = ver /\ plain' = plain + 1 ELSE UNCHANGED <<y, plain>>
             /\ ans' = <<"scores", y'>> /\ UNCHANGED <<ver, p, deep>>
AskParts == /\ Step
            /\ IF p = None THEN p' = ver /\ y' = ver /\ deep' = deep + 1 ELSE UNCHANGED <<p, y, deep>>
            /\ ans' = <<"parts", p'>> /\ UNCHANGED <<ver, plain>>
Next == Write \/ AskScores \/ AskParts
Consistent == p # None => y = p
Once == plain <= 1 /\ deep <= 1
Answered == ans[1] = "scores" => ans[2] = y /\ y # None
Fresh == ans[1] # "none" /\ plain + deep = 1 /\ ver = 1 => ans[2] = 1
(* once decomposed, the answers are settled                                *)
Settled == [][p # None => p' = p /\ y' = y]_vars
=============================================================================
