-------------------------------- MODULE C06 --------------------------------
(* K folds: roles of queries over all folds.                               *)
EXTENDS Data, JudgeBase

(* f = <<train, vali, test>>, sequences of ids                             *)
FoldOK(f, Q) == /\ Range(f[1]) \cup Range(f[2]) \cup Range(f[3]) = Q
                /\ Len(f[1]) + Len(f[2]) + Len(f[3]) = Cardinality(Q)

Once(fs, role, Q) == LET all == FoldSeq(LAMBDA f, acc : acc \o f[role], <<>>, fs)
                     IN  Len(all) = Cardinality(Q) /\ Range(all) = Q

SizeOK(n, k, len) == len - (n \div k) \in 0..(n % k)

Ids(part) == View(part.q).ids

(* a run of the queries in the order of the dataset, around its end        *)
Run(part, ids) == \/ part = <<>>
                  \/ \E a \in 1..Len(ids) : \A j \in 1..Len(part) : part[j] = ids[((a + j - 2) % Len(ids)) + 1]
InOrder(fs, ids) == \A j \in 1..Len(fs) : \A role \in 1..3 : Run(fs[j][role], ids)

Verdict(r) ==
    LET ids == View(r.ds.q).ids
        Q == Queries(r.ds)  n == Cardinality(Q)  k == r.folds  fs == r.out.folds IN
    IF r.out.st # "ok" THEN {"k-fold fails"} ELSE
        Fails("number of folds", Len(fs) = k)
   \cup Fails("roles of a fold overlap or miss queries", \A j \in 1..Len(fs) : FoldOK(fs[j], Q))
   \cup Fails("a query is not a test query exactly once", Once(fs, 3, Q))
   \cup Fails("a query is not a validation query exactly once", Once(fs, 2, Q))
   \cup Fails("fold sizes", \A j \in 1..Len(fs) : SizeOK(n, k, Len(fs[j][3])) /\ SizeOK(n, k, Len(fs[j][2])))
   \cup (IF r.out.parts = <<>> THEN {} ELSE
         Fails("datasets and ids describe different splits",
               /\ Len(r.out.parts) = Len(fs)
               /\ \A j \in 1..Len(fs) : \A role \in 1..3 : Range(r.out.parts[j][role].q) = Range(fs[j][role]))
    \cup Fails("a fold does not hold exactly the rows of its queries",
               \A j \in 1..Len(r.out.parts) : \A role \in 1..3 :
                    r.out.parts[j][role] = Subset(r.ds, Range(r.out.parts[j][role].q))))
   \cup Fails("the queries are in another order although they are not to be shuffled", r.shuffle \/ InOrder(fs, ids))
   \cup Fails("the queries are not shuffled", (r.shuffle /\ n >= 20) => ~ InOrder(fs, ids))
   \cup Fails("the dataset was modified", r.out.after = r.ds)

Next == JudgeStep(Verdict(Obs[i]))
=============================================================================
