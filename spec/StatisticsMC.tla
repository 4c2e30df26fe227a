---------------------------- MODULE StatisticsMC ----------------------------
(***************************************************************************)
(* Sign patterns of a randomization test chosen query by query, against    *)
(* the counts of module Statistics, and laws of the p-values; k-fold       *)
(* scoring, fold by fold; error as the sum of bias and variance.           *)
(***************************************************************************)
EXTENDS Statistics
CONSTANTS MaxQueries, MaxFolds
VARIABLES job, sums, at, done, leaked
vars == <<job, sums, at, done, leaked>>
Vals == {"0", "1", "3"}
Jobs == [kind : {"perm"}, a : UNION {[1..n -> Vals] : n \in 1..MaxQueries}, b : UNION {[1..n -> Vals] : n \in 1..MaxQueries}]
        \cup [kind : {"folds"}, n : 1..(2 * MaxFolds), k : 2..MaxFolds]
        \cup [kind : {"bv"}, Z : [1..2 -> [1..2 -> Vals]], t : [1..2 -> Vals]]
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Init == /\ job \in {j \in Jobs : j.kind # "perm" \/ Len(j.a) = Len(j.b)}
        /\ at = 1 /\ done = {} /\ leaked = FALSE
        /\ sums = IF job.kind = "perm" THEN << "0" >> ELSE <<>>
(* every pattern so far is extended both ways                              *)
Sign == /\ job.kind = "perm" /\ at <= Len(job.a)
        /\ LET d == RSub(job.a[at], job.b[at]) IN
           sums' = [j \in 1..(2 * Len(sums)) |-> IF j <= Len(sums) THEN RAdd(sums[j], d) ELSE RSub(sums[j - Len(sums)], d)]
        /\ at' = at + 1 /\ UNCHANGED <<job, done, leaked>>
Share(Test(_)) == RDiv(R(Cardinality({j \in 1..Len(sums) : Test(sums[j])})), R(Len(sums)))
PermDone == (job.kind = "perm" /\ at > Len(job.a)) =>
    LET d == Differences(job.a, job.b)
        e == Differences(job.b, job.a)
        o == RAbs(RSumSeq(d))
    IN /\ OneSided(d) = Share(LAMBDA s : RLe(o, s))
       /\ TwoSided(d) = Share(LAMBDA s : RLe(o, RAbs(s)))
       /\ RLe(OneSided(d), TwoSided(d)) /\ RLt("0", OneSided(d))
       /\ TwoSided(d) = TwoSided(e) /\ OneSided(d) = OneSided(e)
       /\ job.a = job.b => OneSided(d) = "1" /\ TwoSided(d) = "1"
       /\ o # "0" => TwoSided(d) = RMul("2", OneSided(d))

(* folds are consecutive chunks of an order of the queries                 *)
Chunk == (job.n + job.k - 1) \div job.k
Fold == /\ job.kind = "folds" /\ at <= job.n
        /\ LET last == IF at + Chunk - 1 < job.n THEN at + Chunk - 1 ELSE job.n
               test == at..last
               train == (1..job.n) \ test IN
           /\ leaked' = (leaked \/ test \cap train # {} \/ test \cap done # {})
           /\ done' = done \cup test
           /\ at' = last + 1
           /\ sums' = Append(sums, "1")
        /\ UNCHANGED job
FoldsDone == (job.kind = "folds" /\ at > job.n) => done = 1..job.n /\ ~ leaked /\ Len(sums) <= job.k
AddsUp == job.kind = "bv" => RLe(RAbs(RSub(ErrorOf(job.Z, job.t), RAdd(BiasOf(job.Z, job.t), VarianceOf(job.Z)))), RPow("1/2", 100))
Next == Sign \/ Fold
=============================================================================
