------------------------------ MODULE ScoringMC ------------------------------
(***************************************************************************)
(* The two scoring loops.  Plain scoring hands out rows to workers, each   *)
(* adding up the trees of its row; detailed scoring hands out trees, each  *)
(* worker filling one column.  Under every interleaving of the workers     *)
(* both produce base + lr * sum of weighted leaves, every cell is written  *)
(* exactly once, and the learning rate and base score are applied once.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
CONSTANTS Rows, Trees, Workers
VARIABLES leaf,      \* leaf[r][t]: weighted output reached by row r in tree t
          plain, part, leaves, todoR, todoT, work, phase, y
vars == <<leaf, plain, part, leaves, todoR, todoT, work, phase, y>>
Lr == 2  Base == 3
RS == 1..Rows  TS == 1..Trees
Idle == [row |-> 0, tree |-> 0, at |-> 0]
Init == /\ leaf \in [RS -> [TS -> 0..1]]
        /\ plain = [r \in RS |-> 0] /\ part = [r \in RS |-> [t \in TS |-> -1]] /\ leaves = [r \in RS |-> [t \in TS |-> 0]]
        /\ todoR = RS /\ todoT = TS /\ work = [w \in 1..Workers |-> Idle] /\ phase = "run" /\ y = [r \in RS |-> 0]
TakeRow(w) == /\ phase = "run" /\ work[w] = Idle /\ todoR # {}
              /\ \E r \in todoR : /\ todoR' = todoR \ {r} /\ work' = [work EXCEPT ![w] = [row |-> r, tree |-> 0, at |-> 1]]
              /\ UNCHANGED <<leaf, plain, part, leaves, todoT, phase, y>>
StepRow(w) == /\ work[w].row # 0
              /\ LET r == work[w].row  t == work[w].at IN
                 /\ plain' = [plain EXCEPT ![r] = @ + leaf[r][t]]
                 /\ work' = [work EXCEPT ![w] = IF t = Trees THEN Idle ELSE [@ EXCEPT !.at = t + 1]]
              /\ UNCHANGED <<leaf, part, leaves, todoR, todoT, phase, y>>
TakeTree(w) == /\ phase = "run" /\ work[w] = Idle /\ todoR = {} /\ todoT # {}
               /\ \E t \in todoT : /\ todoT' = todoT \ {t} /\ work' = [work EXCEPT ![w] = [row |-> 0, tree |-> t, at |-> 1]]
               /\ UNCHANGED <<leaf, plain, part, leaves, todoR, phase, y>>
StepTree(w) == /\ work[w].tree # 0
               /\ LET t == work[w].tree  r == work[w].at IN
                  /\ part' = [part EXCEPT ![r][t] = leaf[r][t]]
                  /\ leaves' = [leaves EXCEPT ![r][t] = @ + 1]
                  /\ work' = [work EXCEPT ![w] = IF r = Rows THEN Idle ELSE [@ EXCEPT !.at = r + 1]]
               /\ UNCHANGED <<leaf, plain, todoR, todoT, phase, y>>
Scale == /\ phase = "run" /\ todoR = {} /\ todoT = {} /\ \A w \in 1..Workers : work[w] = Idle
         /\ phase' = "done"
         /\ y' = [r \in RS |-> Lr * plain[r] + Base]
         /\ part' = [r \in RS |-> [t \in TS |-> Lr * part[r][t] + (IF t = 1 THEN Base ELSE 0)]]
         /\ UNCHANGED <<leaf, plain, leaves, todoR, todoT, work>>
Next == Scale \/ \E w \in 1..Workers : TakeRow(w) \/ StepRow(w) \/ TakeTree(w) \/ StepTree(w)
Sum(f) == MapThenSumSet(LAMBDA t : f[t], TS)
Decomposes == phase = "done" => \A r \in RS : y[r] = Sum(part[r]) /\ y[r] = Base + Lr * Sum(leaf[r])
OnceEach == phase = "done" => \A r \in RS, t \in TS : leaves[r][t] = 1
NoRace == \A w, v \in 1..Workers : w # v => /\ (work[w].row # 0 => work[w].row # work[v].row)
                                            /\ (work[w].tree # 0 => work[w].tree # work[v].tree)
=============================================================================
