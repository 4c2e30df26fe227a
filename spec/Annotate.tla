------------------------------ MODULE Annotate ------------------------------
(***************************************************************************)
(* What a drawing of a tree says about the instances that went through it: *)
(* how many reached each node, what share of them all that is, and the     *)
(* order of the values the colours stand for.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Rat

(* places in a tree: the turns taken from the root (0: true branch)        *)
RECURSIVE Places(_)
Places(t) == IF "o" \in DOMAIN t THEN {<<>>}
             ELSE {<<>>} \cup {<<0>> \o p : p \in Places(t.l)} \cup {<<1>> \o p : p \in Places(t.r)}
Ends(t) == {p \in Places(t) : \A q \in Places(t) : p = q \/ ~ IsPrefix(p, q)}
(* exits: where each of the instances ends                                 *)
Reaching(exits, p) == Cardinality({x \in 1..Len(exits) : IsPrefix(p, exits[x])})

(* percentages are written with two decimals                               *)
Share(shown, count, all) == all > 0 /\ RFin(shown)
    /\ RLe(RAbs(RSub(RMul(shown, R(all)), R(100 * count))), RMul("51/10000", R(all)))

(* colours are places in a range from cold to warm                         *)
Ordered(S) == \A a \in S : \A b \in S : /\ a[1] = b[1] => a[2] = b[2]
                                       /\ RLt(a[1], b[1]) => a[2] <= b[2]
(* values that differ by more than a fiftieth of their range differ in     *)
(* colour; all is the set of all values                                    *)
Distinct(S, all) ==
    LET lo == CHOOSE a \in all : \A b \in all : RLe(a, b)
        hi == CHOOSE a \in all : \A b \in all : RLe(b, a)
    IN  \A a \in S : \A b \in S : RLt(RSub(hi, lo), RMul("50", RSub(b[1], a[1]))) => a[2] < b[2]
=============================================================================
