----------------------------- MODULE ReadOnlyMC -----------------------------
(***************************************************************************)
(* Why answers and things stay as they are: the memory behind the scores   *)
(* of a model on a dataset.  A question gets the scores from the cache     *)
(* (the array itself, not a copy) or computes them; it may need them in    *)
(* another order or scaled, and hands an array of results to the caller.   *)
(* InPlace: the scores are reordered where they are.  Reuse: a metric      *)
(* keeps one array for its results.  Either breaks an invariant.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Data, MaxCells, InPlace, Reuse
VARIABLES heap, cache, held, buffer, answer
vars == <<heap, cache, held, buffer, answer>>

Scores(d) == <<"scores", d>>
Sorted(d) == <<"sorted", d>>
(* what the metric makes of the scores it finds: only those in their order *)
(* belong to the labels                                                    *)
Result(c) == <<"result", c>>
Right(d) == Result(Scores(d))

Init == heap = <<>> /\ cache = [d \in Data |-> 0] /\ held = {} /\ buffer = 0 /\ answer = <<"none", "none">>

(* the scores of d: their cell and the memory with it                      *)
Cell(d) == IF cache[d] # 0 THEN cache[d] ELSE Len(heap) + 1
With(d) == IF cache[d] # 0 THEN heap ELSE Append(heap, Scores(d))
Cached(d, keep) == IF keep /\ cache[d] = 0 THEN [cache EXCEPT ![d] = Cell(d)] ELSE cache

Score(d, keep) ==
    /\ heap' = With(d) /\ cache' = Cached(d, keep)
    /\ held' = held \cup {<<Cell(d), Scores(d)>>}
    /\ answer' = <<d, Result(With(d)[Cell(d)])>>
    /\ UNCHANGED buffer
(* evaluates the scores, then needs them ranked                            *)
Evaluate(d, keep) ==
    LET h == With(d)  c == Cell(d)  r == Result(h[c])
        ranked == IF InPlace THEN [h EXCEPT ![c] = Sorted(d)] ELSE h
        out == IF Reuse /\ buffer # 0 THEN buffer ELSE Len(ranked) + 1
    IN /\ heap' = IF out > Len(ranked) THEN Append(ranked, r) ELSE [ranked EXCEPT ![out] = r]
       /\ buffer' = out
       /\ cache' = Cached(d, keep)
       /\ held' = held \cup {<<out, r>>}
       /\ answer' = <<d, r>>
Next == Len(heap) + 1 < MaxCells /\ \E d \in Data, keep \in BOOLEAN : Score(d, keep) \/ Evaluate(d, keep)
Spec == Init /\ [][Next]_vars

AnswersRight == answer[1] # "none" => answer[2] = Right(answer[1])
CacheKept == \A d \in Data : cache[d] # 0 => heap[cache[d]] = Scores(d)
AnswersKept == \A a \in held : heap[a[1]] = a[2]
=============================================================================
