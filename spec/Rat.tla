-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers.  A rational is a canonical string "n" or "n/d"  *)
(* with d > 1 and gcd(n, d) = 1, so that equality of rationals is equality *)
(* of strings; "nan", "inf" and "-inf" stand for the IEEE special values.  *)
(* TLC integers have 32 bits, so the operators are implemented by the Java *)
(* module override java/Rat.java; the bodies below are never evaluated and *)
(* only document what each operator means.  Arguments may also be TLC      *)
(* integers.  Comparisons with "nan" are FALSE; arithmetic on values that  *)
(* are not finite, and division by zero, gives "nan".                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

R(a)          == CHOOSE r \in STRING : TRUE   \* canonical form of a
RAdd(a, b)    == CHOOSE r \in STRING : TRUE
RSub(a, b)    == CHOOSE r \in STRING : TRUE
RMul(a, b)    == CHOOSE r \in STRING : TRUE
RDiv(a, b)    == CHOOSE r \in STRING : TRUE   \* b # 0
RAbs(a)       == CHOOSE r \in STRING : TRUE
RLe(a, b)     == CHOOSE r \in BOOLEAN : TRUE  \* a <= b, FALSE on nan
RLt(a, b)     == CHOOSE r \in BOOLEAN : TRUE
RFin(a)       == CHOOSE r \in BOOLEAN : TRUE  \* neither nan nor infinite
RPow(a, k)    == CHOOSE r \in STRING : TRUE   \* k an integer
RFloorInt(a)  == CHOOSE r \in Int : TRUE
RSumSeq(s)    == CHOOSE r \in STRING : TRUE   \* sum of a sequence
RTrunc(a, b)  == CHOOSE r \in STRING : TRUE   \* a rounded down to b fractional bits
RLog2(n)      == CHOOSE r \in STRING : TRUE   \* log2 of the integer n > 0 (to 53 bits)
RExp2(a)      == CHOOSE r \in STRING : TRUE   \* 2 to the power a (to 53 bits unless a is an integer)
RDec(s)       == CHOOSE r \in STRING : TRUE   \* value of a decimal literal
RF32(a)       == CHOOSE r \in STRING : TRUE   \* nearest IEEE binary32
RF64(a)       == CHOOSE r \in STRING : TRUE   \* nearest IEEE binary64

RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b

(* |a - b| <= rel * max(|b|, floor): closeness with relative tolerance     *)
RClose(a, b, rel, floor) ==
    /\ RFin(a) /\ RFin(b)
    /\ RLe(RAbs(RSub(a, b)), RMul(rel, RMax(RAbs(b), floor)))
=============================================================================
