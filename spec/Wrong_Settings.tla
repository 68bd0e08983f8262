--------------------------- MODULE Wrong_Settings ---------------------------
(* MC_Settings gone wrong, see Wrong. *)
EXTENDS MC_Settings

(* The instances share a setting. *)
WSetCase(s, v) ==
  /\ insts' = [x \in DOMAIN insts |-> [insts[x] EXCEPT !.case = v]]
  /\ last' = Idle
  /\ UNCHANGED <<query, buf>>

(* A clone has the default settings. *)
WClone(s, from) ==
  /\ insts[from] # NoInst
  /\ insts' = [insts EXCEPT ![s] = Fresh(insts[from].algo)]
  /\ last' = Idle
  /\ UNCHANGED <<query, buf>>

(* The scheme is only set once. *)
WSetScheme(s, v) ==
  /\ insts' = [insts EXCEPT ![s].scheme = IF @ = "default" THEN v ELSE @]
  /\ last' = Idle
  /\ UNCHANGED <<query, buf>>
=============================================================================
