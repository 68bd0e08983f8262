----------------------------- MODULE Wrong_Order -----------------------------
(* MC_Order gone wrong, see Wrong. *)
EXTENDS MC_Order

(* The lesser score first. *)
WCmp(x, y) == Sign(x - y)

(* Scores which are close are equal. *)
WClose(x, y) == Sign((y \div 32) - (x \div 32))
=============================================================================
