---------------------------- MODULE Wrong_Ranges ----------------------------
(* MC_Ranges gone wrong, see Wrong. *)
EXTENDS MC_Ranges

(* A range which is extended isn't merged with what it then touches. *)
WMergeFollowing(rs, i) == rs

(* A failure takes the ranges which were there for those of the call. *)
WClear == buf' = [x \in 1..Len(Before) |-> <<0, 0>>] /\ cov' = {}
=============================================================================
