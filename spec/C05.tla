-------------------------------- MODULE C05 --------------------------------
(* Splits: partition, sizes, determinism, refusal of bad ratios.           *)
EXTENDS Data, Rat, JudgeBase

Near(n, ratio, total) == LET d == RSub(n, RMul(ratio, total)) IN RLe(RAbs(d), RAdd("1/2", "1/1000000000"))

Good(r) ==
    LET ds == r.ds  n == NumQueries(ds) IN
    IF r.st # "ok" THEN {"a split with valid ratios fails"} ELSE
    LET p == r.parts
        tr == p[1]  va == IF Len(p) = 3 THEN p[2] ELSE [X |-> <<>>, y |-> <<>>, q |-> <<>>]
    IN  Fails("number of parts", Len(p) = IF r.va = "0" THEN 2 ELSE 3)
   \cup Fails("parts do not partition the queries with all their rows in order", PartitionedInto(ds, p))
   \cup Fails("number of training queries", Near(NumQueries(tr), r.tr, n))
   \cup Fails("number of validation queries", Near(NumQueries(va), r.va, n))
   \cup Fails("the same seed gives a different split", r.again = p)
   \cup Fails("the dataset was modified", r.after = ds)

(* with this many queries a random choice is not the first ones            *)
First(part, ds) == NumQueries(part) >= 8 /\ NumQueries(ds) - NumQueries(part) >= 8 /\ NumQueries(ds) >= 30
                   /\ View(part.q).ids = SubSeq(View(ds.q).ids, 1, NumQueries(part))

Verdict(r) == IF r.kind = "bad ratios" THEN Fails("invalid ratios are accepted", r.refused)
              ELSE IF r.kind = "no seed" THEN Fails("an impossible source of randomness is accepted", r.refused)
              ELSE Good(r) \cup (IF r.st # "ok" THEN {} ELSE Fails("the queries are not chosen at random", ~ First(r.parts[1], r.ds)))
Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
