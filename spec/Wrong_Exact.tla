----------------------------- MODULE Wrong_Exact -----------------------------
(* MC_Exact gone wrong, see Wrong. *)
EXTENDS MC_Exact

(* The next attempt starts after the characters which matched. *)
WAttempt ==
  LET p == P
      k == K
      ss == Starts(k)
      s == CHOOSE x \in ss : \A y \in ss : x <= y
      l == MatchLen(k, s, 1)
      better == best = 0 \/ p.bon[s] > p.bon[best]
  IN /\ ~done
     /\ IF ss = {} THEN done' = TRUE /\ UNCHANGED <<from, best>>
        ELSE /\ from' = s + l
             /\ best' = IF l = M /\ better THEN s ELSE best
             /\ done' = (l = M /\ p.bon[s] >= BoundaryPts)
     /\ UNCHANGED <<cfg, text, cand>>

(* It starts where the last one did, should that have matched. *)
WStuck ==
  LET k == K
      ss == Starts(k)
      s == CHOOSE x \in ss : \A y \in ss : x <= y
      l == MatchLen(k, s, 1)
  IN /\ ~done
     /\ IF ss = {} THEN done' = TRUE /\ UNCHANGED <<from, best>>
        ELSE /\ from' = IF l = M THEN s ELSE s + 1
             /\ best' = IF l = M /\ best = 0 THEN s ELSE best
             /\ done' = (l = M /\ P.bon[s] >= BoundaryPts)
     /\ UNCHANGED <<cfg, text, cand>>
=============================================================================
