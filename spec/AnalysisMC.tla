----------------------------- MODULE AnalysisMC -----------------------------
(***************************************************************************)
(* The analyses as they are computed, step by step, against the            *)
(* definitions of module Analysis: scores accumulated from one reported    *)
(* number of trees to the next; histograms counted per bin and summed;     *)
(* pairs of documents visited once.                                        *)
(***************************************************************************)
EXTENDS Analysis
CONSTANTS MaxTrees, MaxStep, MaxVals, MaxDocs
VARIABLES job, at, acc, table
vars == <<job, at, acc, table>>

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Columns(j) == Sorted(Reported({j.n[k] : k \in 1..Len(j.n)}, j.step))
Power(k) == IF k = 0 THEN 1 ELSE 2 * 2 ^ (k - 1)

Jobs ==
    [kind : {"tree"}, n : UNION {[1..z -> 1..MaxTrees] : z \in 1..2}, step : 1..MaxStep]
    \cup [kind : {"hist"}, vs : UNION {[1..z -> 0..4] : z \in 1..MaxVals}, lo : 0..1, hi : 2..4, bins : 1..3]
    \cup [kind : {"pairs"}, y : [1..MaxDocs -> {0, 1, 3}], s : [1..MaxDocs -> 0..2], cut : 1..MaxDocs]

Init == /\ job \in Jobs /\ at = <<1, 1>> /\ acc = 0
        /\ table = CASE job.kind = "tree" -> [m \in 1..Len(job.n) |-> [j \in 1..Len(Columns(job)) |-> -1]]
                     [] job.kind = "hist" -> [b \in 1..job.bins |-> 0]
                     [] job.kind = "pairs" -> [e \in {0, 1, 3} \X {0, 1, 3} |-> 0]

(* tree j of a model contributes 2^j, so that a sum tells its terms        *)
Tree == /\ job.kind = "tree" /\ at[1] <= Len(job.n)
        /\ LET c == Columns(job)  m == at[1]  j == at[2] IN
           IF j > Len(c) \/ c[j] > job.n[m]
           THEN at' = <<m + 1, 1>> /\ acc' = 0 /\ UNCHANGED table
           ELSE LET from == IF j = 1 THEN 0 ELSE c[j - 1]
                    more == FoldLeft(LAMBDA a, k : a + 2 ^ k, 0, [k \in 1..(c[j] - from) |-> from + k])
                IN acc' = acc + more /\ table' = [table EXCEPT ![m][j] = acc + more] /\ at' = <<m, j + 1>>
        /\ UNCHANGED job
TreeDone == job.kind = "tree" /\ at[1] > Len(job.n) =>
    \A m \in 1..Len(job.n) : LET c == Columns(job) IN
        /\ \E j \in 1..Len(c) : c[j] = job.n[m]
        /\ \A k \in Multiples(job.n[m], job.step) : \E j \in 1..Len(c) : c[j] = k
        /\ \A j \in 1..Len(c) : table[m][j] = IF c[j] > job.n[m] THEN -1 ELSE 2 ^ (c[j] + 1) - 2

(* one value after the other, each into its bin; then the bins are summed  *)
BinOf(v) == CHOOSE b \in 0..job.bins :
    IF v < job.lo \/ v > job.hi THEN b = 0
    ELSE b > 0 /\ RLe(Edge(job.lo, job.hi, job.bins, b - 1), R(v))
         /\ (RLt(R(v), Edge(job.lo, job.hi, job.bins, b)) \/ (b = job.bins /\ v = job.hi))
Hist == /\ job.kind = "hist" /\ at[1] <= Len(job.vs) + job.bins - 1
        /\ table' = IF at[1] <= Len(job.vs)
                    THEN LET b == BinOf(job.vs[at[1]]) IN IF b = 0 THEN table ELSE [table EXCEPT ![b] = @ + 1]
                    ELSE LET b == at[1] - Len(job.vs) + 1 IN [table EXCEPT ![b] = @ + table[b - 1]]
        /\ at' = <<at[1] + 1, 1>> /\ UNCHANGED <<job, acc>>
Rats(vs) == [k \in 1..Len(vs) |-> R(vs[k])]
HistDone == job.kind = "hist" /\ at[1] > Len(job.vs) + job.bins - 1 =>
    /\ \A b \in 1..job.bins : table[b] = CountBelow(R(job.lo), R(job.hi), job.bins, b, Rats(job.vs), "0")
    /\ \A b \in 2..job.bins : table[b - 1] <= table[b]
    /\ (\A k \in 1..Len(job.vs) : job.lo <= job.vs[k] /\ job.vs[k] <= job.hi) => table[job.bins] = Len(job.vs)

(* the first cut documents are one query, the others another               *)
SameQuery(i, j) == (i <= job.cut) = (j <= job.cut)
Pair == /\ job.kind = "pairs" /\ at[1] <= MaxDocs
        /\ LET i == at[1]  j == at[2] IN
           /\ table' = IF ~ SameQuery(i, j) \/ job.y[i] = job.y[j] THEN table
                       ELSE IF job.s[i] < job.s[j] THEN [table EXCEPT ![<<job.y[i], job.y[j]>>] = @ + 1]
                       ELSE [table EXCEPT ![<<job.y[j], job.y[i]>>] = @ + 1]
           /\ at' = IF j = MaxDocs THEN <<i + 1, i + 1>> ELSE <<i, j + 1>>
        /\ UNCHANGED <<job, acc>>
PairsDone == job.kind = "pairs" /\ at[1] > MaxDocs =>
    LET q1 == [y |-> SubSeq(job.y, 1, job.cut), s |-> SubSeq(job.s, 1, job.cut)]
        q2 == [y |-> SubSeq(job.y, job.cut + 1, MaxDocs), s |-> SubSeq(job.s, job.cut + 1, MaxDocs)]
        lt(a, b) == a < b
        any(a, b) == TRUE
    IN \A a, b \in {0, 1, 3} : a # b =>
          /\ table[<<a, b>>] >= PairsOf(<<q1, q2>>, a, b, lt)
          /\ table[<<a, b>>] + table[<<b, a>>] = PairsOf(<<q1, q2>>, a, b, any)

Next == Tree \/ Hist \/ Pair
=============================================================================
