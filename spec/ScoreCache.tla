------------------------------ MODULE ScoreCache ------------------------------
(***************************************************************************)
(* Cached scores.  A model object is [m |-> what determines its scores,    *)
(* cache |-> set of entries].  An entry [obj, c, m, det] says that dataset *)
(* object obj with contents c was scored and cached when the model was m,  *)
(* in detail or not.  Entries that a copy inherits have obj = 0.           *)
(*                                                                         *)
(* An entry for the same object must answer (scoring is not repeated); an  *)
(* entry for other objects with the same contents may.                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CanAnswer(e, det) == det => e.det
Own(mo, obj, det) == {e \in mo.cache : e.obj = obj /\ CanAnswer(e, det)}
Like(mo, c, det)  == {e \in mo.cache : e.c = c /\ CanAnswer(e, det)}

(* the versions of the model whose scores may be returned                  *)
Allowed(mo, obj, c, det) == {e.m : e \in Like(mo, c, det)} \cup (IF Own(mo, obj, det) = {} THEN {mo.m} ELSE {})

Remember(mo, obj, c, det, ans) == [mo EXCEPT !.cache = @ \cup {[obj |-> obj, c |-> c, m |-> ans, det |-> det]}]
Clear(mo) == [mo EXCEPT !.cache = {}]
Change(mo, m) == [mo EXCEPT !.m = m]
CopyOf(mo) == [mo EXCEPT !.cache = {[e EXCEPT !.obj = 0] : e \in @}]
Fresh(m) == [m |-> m, cache |-> {}]
=============================================================================
