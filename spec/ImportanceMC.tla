---------------------------- MODULE ImportanceMC ----------------------------
(***************************************************************************)
(* The importance of one tree computed in place: a stack of segments of a  *)
(* permutation of the rows, every segment being partitioned around its     *)
(* node's threshold, small segments not visited.  Against the definition   *)
(* by paths and levels of module Importance.                               *)
(***************************************************************************)
EXTENDS Importance
CONSTANTS MaxSplits, NumRows
VARIABLES m, X, y, order, stack, pred, credit, count, begin
vars == <<m, X, y, order, stack, pred, credit, count, begin>>

RECURSIVE Shapes(_), Label(_, _)
Shapes(n) == IF n = 0 THEN {[o |-> "0"]}
             ELSE UNION {{[l |-> a, r |-> b] : a \in Shapes(i), b \in Shapes(n - 1 - i)} : i \in 0..(n - 1)}
(* split j (in preorder) tests feature j mod 2 against threshold fs[j]      *)
Label(t, fs) ==
    IF IsLeaf(t) THEN t
    ELSE LET n == (NumNodes(t.l) - 1) \div 2 IN
         [f |-> fs[1][1], t |-> fs[1][2], l |-> Label(t.l, SubSeq(fs, 2, 1 + n)), r |-> Label(t.r, SubSeq(fs, 2 + n, Len(fs)))]
Trees == UNION {{Label(s, fs) : s \in Shapes(n), fs \in [1..n -> {0, 1} \X {"0", "1"}]} : n \in 0..MaxSplits}
Rows == {<<a, b>> : a, b \in {"0", "1", "2"}}
Init == /\ m \in {Flat(<< [w |-> "1", root |-> t] >>) : t \in Trees}
        /\ X \in {f \in [1..NumRows -> Rows] : \A a \in 1..(NumRows - 1) : f[a][1] = f[a + 1][1] \/ RLt(f[a][1], f[a + 1][1])}
        /\ y = [a \in 1..NumRows |-> R(a * a)]
        /\ order = [a \in 1..NumRows |-> a]
        /\ pred = [a \in 1..NumRows |-> RDiv(RSumSeq(y), R(NumRows))]
        /\ stack = IF m.l[1] = -1 THEN <<>> ELSE << [n |-> 0, s |-> 1, e |-> NumRows] >>
        /\ credit = <<"0", "0">> /\ count = <<0, 0>> /\ begin = TRUE
Swap(o, a, b) == [o EXCEPT ![a] = o[b], ![b] = o[a]]
(* the in-place partition: final order and frontier                        *)
Partition(o, s, e, n) ==
    LET RECURSIVE go(_, _, _)
        go(oo, a, b) == IF a > b THEN [o |-> oo, b |-> b]
                        ELSE IF Goes(X[oo[a]][m.f[n + 1] + 1], m.v[n + 1]) THEN go(oo, a + 1, b)
                        ELSE go(Swap(oo, a, b), a, b - 1)
    IN go(o, s, e)
MeanSeg(o, s, e) == RDiv(RSumSeq([j \in 1..(e - s + 1) |-> y[o[s + j - 1]]]), R(e - s + 1))
Sq(x) == RMul(x, x)
Next == /\ stack # <<>>
        /\ LET x == stack[Len(stack)]
               rest == SubSeq(stack, 1, Len(stack) - 1)
               p == Partition(order, x.s, x.e, x.n)
               new == [a \in 1..NumRows |-> LET j == CHOOSE j \in 1..NumRows : p.o[j] = a IN
                          IF j < x.s \/ j > x.e THEN pred[a]
                          ELSE IF j <= p.b THEN MeanSeg(p.o, x.s, p.b) ELSE MeanSeg(p.o, p.b + 1, x.e)]
               f == m.f[x.n + 1] + 1
               isplit(c) == m.l[c + 1] # -1
               left == IF isplit(m.l[x.n + 1]) /\ p.b > x.s THEN << [n |-> m.l[x.n + 1], s |-> x.s, e |-> p.b] >> ELSE <<>>
               right == IF isplit(m.r[x.n + 1]) /\ x.e > p.b + 1 THEN << [n |-> m.r[x.n + 1], s |-> p.b + 1, e |-> x.e] >> ELSE <<>>
           IN /\ order' = p.o
              /\ pred' = new
              /\ credit' = [credit EXCEPT ![f] = RAdd(@, RDiv(RSumSeq([a \in 1..NumRows |->
                                RSub(Sq(RSub(y[a], pred[a])), Sq(RSub(y[a], new[a])))]), R(NumRows)))]
              /\ count' = [count EXCEPT ![f] = @ + 1]
              /\ stack' = rest \o left \o right
              /\ begin' = FALSE
        /\ UNCHANGED <<m, X, y>>
RunsHere == TLCEval(Runs(m, X, y))
Segments == \A k \in 1..Len(stack) : LET x == stack[k] IN
    {order[j] : j \in x.s..x.e} = {a \in 1..NumRows : \E j \in 1..Len(PathFlat(m, 0, X[a])) : PathFlat(m, 0, X[a])[j] = x.n}
Done == stack = <<>> => LET T == RunsHere IN
    /\ pred = T[1].run.last
    /\ \A f \in {0, 1} : /\ credit[f + 1] = Total(m, T, f, LAMBDA t, e : SquareCredit(t, e, NumRows))
                         /\ count[f + 1] = Tally(m, T, f, SquareCounted)
                         /\ RLe("0", credit[f + 1])
=============================================================================
