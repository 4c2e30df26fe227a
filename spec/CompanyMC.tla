------------------------------ MODULE CompanyMC ------------------------------
(***************************************************************************)
(* Several calls of the scoring loop at the same time.  Call c has its own *)
(* documents; its documents are handed out to workers, which route one     *)
(* document through the trees (node is the node reached so far) and add    *)
(* the leaf to the result; interleaved step by step.  Every call returns   *)
(* for each document what it would get alone.                              *)
(* SharedBuffer: the calls use one array for results.  SharedNode: the     *)
(* workers of a call use one variable for the current node.  Neither keeps *)
(* the property.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Calls, Workers, Docs, Trees, SharedBuffer, SharedNode
VARIABLES doc, y, work, node, todo, answer
vars == <<doc, y, work, node, todo, answer>>
Places == 1..2
(* leaf of tree t for document d: two different ones                       *)
Leaf(t, d) == 1 + ((t + d) % 2) * t
RECURSIVE Sum(_, _)
Sum(d, t) == IF t = 0 THEN 0 ELSE Leaf(t, d) + Sum(d, t - 1)
Alone(d) == Sum(d, Trees)
Buffer(c) == IF SharedBuffer THEN 1 ELSE c
Node(c, w) == IF SharedNode THEN <<c, 1>> ELSE <<c, w>>
Idle == [p |-> 0, t |-> 0, moved |-> FALSE]
Init == /\ doc \in [1..Calls -> [Places -> 1..Docs]]
        /\ y = [b \in 1..Calls |-> [p \in Places |-> 0]]
        /\ node = [x \in (1..Calls) \X (1..Workers) |-> 0]
        /\ work = [x \in (1..Calls) \X (1..Workers) |-> Idle]
        /\ todo = [c \in 1..Calls |-> {}] /\ answer = [c \in 1..Calls |-> <<"not called">>]
Start(c) == /\ answer[c] = <<"not called">> /\ answer' = [answer EXCEPT ![c] = <<"running">>]
            /\ todo' = [todo EXCEPT ![c] = Places] /\ y' = [y EXCEPT ![Buffer(c)] = [p \in Places |-> 0]]
            /\ UNCHANGED <<doc, work, node>>
Take(c, w) == /\ answer[c] = <<"running">> /\ work[<<c, w>>] = Idle
              /\ \E p \in todo[c] : /\ todo' = [todo EXCEPT ![c] = @ \ {p}]
                                    /\ work' = [work EXCEPT ![<<c, w>>] = [p |-> p, t |-> 1, moved |-> FALSE]]
              /\ UNCHANGED <<doc, y, node, answer>>
Route(c, w) == LET k == work[<<c, w>>] IN
               /\ k.p # 0 /\ ~ k.moved
               /\ node' = [node EXCEPT ![Node(c, w)] = Leaf(k.t, doc[c][k.p])]
               /\ work' = [work EXCEPT ![<<c, w>>].moved = TRUE]
               /\ UNCHANGED <<doc, y, todo, answer>>
Add(c, w) == LET k == work[<<c, w>>] IN
             /\ k.p # 0 /\ k.moved
             /\ y' = [y EXCEPT ![Buffer(c)][k.p] = @ + node[Node(c, w)]]
             /\ work' = [work EXCEPT ![<<c, w>>] = IF k.t = Trees THEN Idle ELSE [k EXCEPT !.t = @ + 1, !.moved = FALSE]]
             /\ UNCHANGED <<doc, node, todo, answer>>
Return(c) == /\ answer[c] = <<"running">> /\ todo[c] = {} /\ \A w \in 1..Workers : work[<<c, w>>] = Idle
             /\ answer' = [answer EXCEPT ![c] = <<"scores", y[Buffer(c)]>>]
             /\ UNCHANGED <<doc, y, work, node, todo>>
Next == \E c \in 1..Calls : Start(c) \/ Return(c) \/ \E w \in 1..Workers : Take(c, w) \/ Route(c, w) \/ Add(c, w)
Right == \A c \in 1..Calls : answer[c][1] = "scores" => \A p \in Places : answer[c][2][p] = Alone(doc[c][p])
=============================================================================
