---------------------------- MODULE Wrong_Buffer ----------------------------
(* MC_Buffer gone wrong, see Wrong. *)
EXTENDS MC_Buffer

(* A failure undoes what was there. *)
WAskWith(s, x, r) ==
  LET q == ParseExtended(Asks[x].q)
      m == MatchQuery(insts[s], q, Asks[x].c)
      b == IF r THEN (IF m.ok THEN buf \o ToRanges(Asks[x].c, m.pos) ELSE [y \in 1..Len(buf) |-> <<0, 0>>]) ELSE buf
  IN /\ query' = [query EXCEPT ![1] = q]
     /\ buf' = b
     /\ last' = [op |-> IF r THEN "r" ELSE "d", cfg |-> insts[s], query |-> q, cand |-> Asks[x].c,
                 reply |-> Reply(m), before |-> buf, after |-> b]
     /\ UNCHANGED <<insts, pre>>
     /\ Log([s |-> s, x |-> x, r |-> r])
=============================================================================
