------------------------------- MODULE Writing -------------------------------
(***************************************************************************)
(* Writing something of need bytes where only cap fit (cap < 0: anything   *)
(* fits).  Told is what the caller is told, whole whether all of it is     *)
(* there afterwards.                                                       *)
(***************************************************************************)
EXTENDS Integers
Fits(need, cap) == cap < 0 \/ need <= cap
(* success is reported for what is there, and only for that                *)
Honest(told, whole) == told => whole
(* nothing fails without a reason                                          *)
Possible(need, cap, told) == Fits(need, cap) => told
=============================================================================
