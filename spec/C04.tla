-------------------------------- MODULE C04 --------------------------------
(* What a dataset reports about its queries against Data!View.             *)
EXTENDS Data, JudgeBase

Good(r) ==
    LET o == r.out  v == View(r.q) IN
    IF ~ Grouped(r.q) THEN {"driver: rows of a query are not contiguous"}
    ELSE IF o.st # "ok" THEN {"a dataset is refused or its structure cannot be read"} ELSE
        Fails("distinct query ids in order of first appearance", o.ids = v.ids)
   \cup Fails("offsets", o.offsets = v.offsets)
   \cup Fails("query sizes", o.sizes = v.sizes)
   \cup Fails("query iterator", o.iter = Ranges(v))
   \cup Fails("lookup of a query", o.lookup = Ranges(v))
   \cup Fails("a missing query id does not raise a lookup error", o.missing_refused)
   \cup Fails("the offsets of a query are not two indices", o.scalar)
   \cup Fails("per-row query ids", o.per = r.q)
   \cup Fails("per-row query ids of another type than asked for", o.typed)
   \cup Fails("counts", o.counts = <<Len(r.q), r.nf, Len(v.ids)>>)
   \cup Fails("rows or labels changed", o.intact)

Verdict(r) == IF r.kind = "wrong length" THEN Fails("a query id or label array of the wrong length is accepted", r.refused)
              ELSE IF r.kind = "scattered" THEN
                   IF Grouped(r.q) THEN {"driver: rows of every query are contiguous"}
                   ELSE Fails("scattered rows of a query are accepted", r.refused)
              ELSE Good(r)

Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
